mod env;
mod glob;
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = hsdk::Ctx::from_env(&prop);
    match prop.as_str() {
        "G01" => glob::run(&ctx),
        "U01" => env::run(&ctx),
        _ => panic!("unknown property {prop}"),
    }
    std::process::exit(ctx.finish());
}
