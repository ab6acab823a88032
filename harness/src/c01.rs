//! icrc7_transfer moves a token only for its owner, exactly as asked.
use crate::world::*;

fn step(v: &mut Toks, n: usize) {
    tick();
    let c = any_u8("caller");
    let mut args = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let t = below("tid", 4);
        let to = any_ac("to");
        want.push((t, to));
        args.push(xfer_arg(to.acct(), t as u64));
    }
    let l0 = log_len();
    let r = transfer(c, args);
    let l1 = log_len();
    let mut done = 0;
    match r {
        None => check(false, "transfer-answers"),
        Some(rs) => {
            if is_anon(c) { cover("anonymous"); for x in &rs { check(!matches!(x, Some(Ok(_))), "anonymous-caller-refused"); } }
            else {
                check(rs.len() == n, "one-answer-per-request");
                for i in 0..n.min(rs.len()) {
                    let (t, to) = want[i];
                    match &rs[i] {
                        Some(Ok(_)) => {
                            cover("moved");
                            done += 1;
                            match get(v, t) {
                                None => check(false, "moved-nonexistent"),
                                Some(o) => {
                                    check(o.p == c, "only-owner-moves");
                                    check(!to.anon(), "not-to-anonymous");
                                    check(!to.same(o), "not-to-self");
                                }
                            }
                            set(v, t, Some(to));
                        }
                        _ => {
                            cover("refused");
                            // a repeat of a move made in the same call is refused as a duplicate (blocks name principals only)
                            let rep = i > 0 && (want[0].0 == t) & (want[0].1.p == to.p) && matches!(rs[0], Some(Ok(_)));
                            if let Some(o) = get(v, t) { check((o.p != c) | to.anon() | to.same(o) | rep, "owner-not-refused"); }
                        }
                    }
                }
            }
        }
    }
    check(l1 == l0 + done, "one-block-per-move");
}
/// one arbitrary request
#[no_mangle]
pub extern "C" fn h_c01_one() {
    let mut v = setup(&[any_ac("o1"), any_ac("o2")]);
    step(&mut v, 1);
    check_world(&v);
}
/// one arbitrary batch of two
#[no_mangle]
pub extern "C" fn h_c01_batch() {
    let mut v = setup(&[any_ac("o1"), any_ac("o2")]);
    step(&mut v, 2);
    for t in 0..3 { check(owner_is(t, if t == 0 { None } else { v[t as usize] }), "owner"); }
}
/// two arbitrary calls after each other
#[no_mangle]
pub extern "C" fn h_c01_two() {
    let mut v = setup(&[any_ac("o1"), any_ac("o2")]);
    step(&mut v, 1);
    step(&mut v, 1);
    for t in 0..3 { check(owner_is(t, if t == 0 { None } else { v[t as usize] }), "owner"); }
}
/// a batch of two after an arbitrary call
#[no_mangle]
pub extern "C" fn h_c01_deep() {
    let mut v = setup(&[any_ac("o1"), any_ac("o2")]);
    step(&mut v, 1);
    step(&mut v, 2);
    for t in 0..3 { check(owner_is(t, if t == 0 { None } else { v[t as usize] }), "owner"); }
}
