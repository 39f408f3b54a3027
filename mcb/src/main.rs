//! Checks of the optional back ends (bevy types, bevy mesh export, SVG import).
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/poly.rs"]
#[allow(dead_code)]
mod poly;
#[path = "../../mc/src/topo.rs"]
#[allow(dead_code)]
mod topo;
#[path = "../../mc/src/realize.rs"]
#[allow(dead_code)]
mod realize;
#[path = "../../mc/src/shapes.rs"]
#[allow(dead_code)]
mod shapes;
mod b_math;
mod b_mesh;
mod v_font;
mod v_svg;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
    let root = std::path::PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    if std::env::var("MC_CHILD").is_err() {
        std::process::exit(engine::supervise(&prop, &tier, &root));
    }
    engine::install_panic_hook();
    let ctx: &'static engine::Ctx = Box::leak(Box::new(engine::Ctx::new(&prop, tier == "thorough", root)));
    ctx.watchdog();
    match prop.as_str() {
        "B01" => b_math::b01(ctx),
        "B02" => b_mesh::b02(ctx),
        "F01" => v_font::f01(ctx),
        "V01" => v_svg::v01(ctx),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
