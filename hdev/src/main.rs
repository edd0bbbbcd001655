mod dev;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(2).map(String::as_str) == Some("--stdout-child") {
        return dev::child(a[3].parse().unwrap());
    }
    let prop = a.get(1).cloned().unwrap_or_default();
    let ctx = hsdk::Ctx::from_env(&prop);
    match prop.as_str() {
        "D01" => dev::run(&ctx),
        _ => panic!("unknown property {prop}"),
    }
    std::process::exit(ctx.finish());
}
