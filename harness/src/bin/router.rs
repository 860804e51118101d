// The router itself, in a process of its own: /repo's public entry point, configured by ROUTER_CONFIG_FILE_PATH.
#![recursion_limit = "256"]
use hive_router::{error::RouterInitError, init_rustls_crypto_provider, router_entrypoint, PluginRegistry};
#[hive_router::main]
async fn main() -> Result<(), RouterInitError> {
    init_rustls_crypto_provider();
    router_entrypoint(PluginRegistry::new()).await
}
