//! not registered: prints things
use crate::world::*;
#[no_mangle]
pub extern "C" fn h_probe_blocks() {
    let o = Ac::new(7, 0);
    setup(&[o]);
    tick();
    transfer(7, vec![xfer_arg(Ac::plain(9), 1)]);
    tick();
    approve(9, vec![appr(1, Ac::new(5, 3), 0, Some(77))]);
    tick();
    approve_coll(9, vec![ApproveCollArg { approval_info: ainfo(Ac::new(5, 0), 0, None) }]);
    let r = get_blocks(0, 10).unwrap();
    for b in &r.blocks { log(&format!("{} {:?}", b.id, b.block)); }
}
