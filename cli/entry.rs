//! One command per message: the message says what was typed and what the files hold, the reply what came of it.
use crate::commands::*;
use candid::Principal;
use hoststd::host;

async fn one(canister: Principal, cmd: u8, m: &clap::ArgMatches) -> anyhow::Result<()> {
    let agent = ic_agent::Agent::default();
    match cmd {
        0 => handle_upload_file(&agent, &canister, m).await,
        1 => handle_validate_metadata(m).await,
        2 => handle_create_metadata(m).await,
        3 => handle_upload_metadata(&agent, &canister, m).await,
        4 => handle_mint(&agent, &canister, m).await,
        _ => handle_permissions(&agent, &canister, m).await,
    }
}
#[export_name = "canister_update run"]
pub extern "C" fn run() {
    ic_cdk::futures::in_executor_context(|| {
        let a = ic_cdk::api::msg_arg_data();
        let mut r = host::Reader(&a);
        let canister = Principal::from_slice(r.bytes());
        let cmd = r.byte();
        host::load(&mut r);
        let m = clap::ArgMatches::load(&mut r);
        ic_cdk::futures::spawn(async move {
            let ok = one(canister, cmd, &m).await.is_ok();
            ic_cdk::api::msg_reply(host::outcome(ok));
        });
    })
}
