//! S01: everything at once - races, re-entrancy, extreme values - watched for panics, hangs and leaks.
mod chaos;
mod reent;
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = hsdk::Ctx::from_env(&prop);
    reent::run(&ctx);
    chaos::run(&ctx);
    std::process::exit(ctx.finish());
}
