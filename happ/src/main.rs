//! L03: the log and tracing bridges.
mod lg;
mod tr;
use hsdk::*;
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::from_env(&prop);
    match prop.as_str() {
        "L03" => {
            ctx.require("log_records_checked", 2000);
            ctx.require("tracing_events_checked", 2000);
            ctx.require("filtered_out", 300);
            ctx.require("attributes_checked", 5000);
            ctx.require("nested_values_checked", 500);
            ctx.require("with_active_span", 300);
            ctx.section("log", 0.2, 2, 100, |c, r| lg::events(c, r, false));
            ctx.section("log-serde", 0.3, 3, 100, |c, r| lg::events(c, r, true));
            ctx.section("tracing", 0.2, 2, 100, |c, r| tr::events(c, r, false));
            ctx.section("tracing-metadata", 0.15, 2, 100, |c, r| tr::events(c, r, true));
            ctx.section("threads", 0.05, 2, 10, tr::threads);
            let _inj = hsdk::perturb::Injector::start(ctx.seed, 150);
            ctx.section("threads-perturbed", 0.1, 2, 10, tr::threads);
        }
        _ => panic!("unknown property {prop}"),
    }
    std::process::exit(ctx.finish());
}
