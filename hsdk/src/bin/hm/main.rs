mod m01;
mod m02;
mod m03;
mod m04;
mod m05;
mod m06;
mod m07;
mod m08;
mod m09;
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = hsdk::Ctx::from_env(&prop);
    match prop.as_str() {
        "M01" => m01::run(&ctx),
        "M02" => m02::run(&ctx),
        "M03" => m03::run(&ctx),
        "M06" => m06::run(&ctx),
        "M07" => m07::run(&ctx),
        "M08" => m08::run(&ctx),
        "M09" => m09::run(&ctx),
        "M04" => m04::run(&ctx),
        "M05" => m05::run(&ctx),
        _ => panic!("unknown property {prop}"),
    }
    std::process::exit(ctx.finish());
}
