mod engine;
mod m_math;
mod explore;
mod ops;
mod realize;
mod poly;
mod s_prim;
mod s_query;
mod s_store;
mod s_loft;
mod s_sub;
mod s_topo;
mod t_cont;
mod shapes;
mod t_curve;
mod t_mesh;
mod t_norm;
mod t_path;
mod t_tri;
mod topo;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
    let root = std::path::PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    if std::env::var("MC_CHILD").is_err() {
        std::process::exit(engine::supervise(&prop, &tier, &root));
    }
    engine::install_panic_hook();
    let ctx: &'static engine::Ctx = Box::leak(Box::new(engine::Ctx::new(&prop, tier == "thorough", root)));
    ctx.watchdog();
    match prop.as_str() {
        "S01" => s_topo::s01(ctx),
        "S02" => s_topo::s02(ctx),
        "S03" => s_store::s03(ctx),
        "S04" => s_query::s04(ctx),
        "S05" => s_query::s05(ctx),
        "S06" => s_query::s06(ctx),
        "T01" => t_tri::t01(ctx),
        "T02" => t_tri::t02(ctx),
        "T03" => t_tri::t03(ctx),
        "T04" => t_tri::t04(ctx),
        "T05" => t_tri::t05(ctx),
        "T06" => t_tri::t06(ctx),
        "T07" => t_mesh::t07(ctx),
        "S07" => s_loft::s07(ctx),
        "S08" => s_loft::s08(ctx),
        "S09" => s_sub::s09(ctx),
        "S10" => s_prim::s10(ctx),
        "S11" => t_path::s11(ctx),
        "S12" => t_curve::s12(ctx),
        "T08" => t_cont::t08(ctx),
        "T09" => t_norm::t09(ctx),
        "M01" => m_math::m01(ctx),
        "M02" => m_math::m02(ctx),
        "M03" => m_math::m03(ctx),
        "N01" => s_query::n01(ctx),
        "N02" => s_query::n02(ctx),
        "N03" => s_query::n03(ctx),
        "C01" => s_query::c01(ctx),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
