mod env;
mod rt;
mod sched;
#[allow(dead_code)]
mod world;
#[allow(dead_code)]
mod util;
macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] mod $m; )*
        fn table() -> Vec<rt::Entry> {
            let mut v = vec![];
            $( #[cfg(feature = $f)] v.extend_from_slice($m::TABLE); )*
            v
        }
    };
}
modules!("c01" c01_mustache_parse, "c08" c08_group_by, "c10" c10_json_like, "c18" c18_rest, "c40" c40_counter, "c05" c05_cache, "c15" c15_types, "c06" c06_dl_request, "c07" c07_batching, "c13" c13_merge, "c14" c14_unify, "c11" c11_scalar, "c12" c12_discriminator, "c16" c16_pipelines, "c17" c17_errata, "c03" c03_loader, "c04" c04_dedupe, "c22" c22_cors, "c25" c25_auth, "c27" c27_history, "c21" c21_cache_control, "c28" c28_sdl, "c29" c29_json_schema, "c02" c02_render, "c19" c19_upstream, "c26" c26_response, "c30" c30_generated, "c31" c31_refused, "c20" c20_graphql_upstream, "c24" c24_script);
fn main() {
    std::process::exit(rt::run_main(&table()));
}
