mod logs;
mod pipe;
mod prov;
mod span;
mod supp;
mod tree;
mod warn;
use hsdk::plib::PK;
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = hsdk::Ctx::from_env(&prop);
    match prop.as_str() {
        "T01" => pipe::run_batch(&ctx, &[PK::Span]),
        "L01" => pipe::run_batch(&ctx, &[PK::Log]),
        "X01" => pipe::run_simple(&ctx),
        "A01" => pipe::run_async(&ctx),
        "T02" => span::run_ops(&ctx),
        "T03" => span::run_limits(&ctx),
        "T04" => tree::run_sampling(&ctx),
        "T05" => tree::run_tree(&ctx),
        "L02" => logs::run(&ctx),
        "V01" => prov::run(&ctx),
        "C02" => supp::run(&ctx),
        "W01" => warn::run(&ctx),
        _ => panic!("unknown property {prop}"),
    }
    std::process::exit(ctx.finish());
}
