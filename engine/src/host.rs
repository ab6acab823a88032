//! ic0 system API and the harness API.
use crate::exec::*;
use crate::expr::*;
use crate::mem::*;
use crate::solver::Res;
use std::rc::Rc;

type R<T> = Result<T, Stop>;

impl Engine {
    fn rd(&self, st: &State, inst: usize, p: u64, n: u64) -> R<SB> {
        let m = &st.insts[inst].as_ref().unwrap().mem;
        if !m.ok(p, n) { return Err(Stop::Trap("host read out of bounds".into())); }
        Ok(m.read(p, n as usize))
    }
    fn wr(&self, st: &mut State, inst: usize, p: u64, d: &SB) -> R<()> {
        let i = Rc::make_mut(st.insts[inst].as_mut().unwrap());
        if !i.mem.ok(p, d.d.len() as u64) { return Err(Stop::Trap("host write out of bounds".into())); }
        if !d.d.is_empty() { i.mem.write(p, d); }
        Ok(())
    }
    fn copy_out(&self, st: &mut State, inst: usize, src: &SB, dst: u64, off: u64, n: u64) -> R<()> {
        if (off + n) as usize > src.d.len() { return Err(Stop::Trap("copy out of range".into())); }
        let s = src.slice(off as usize, n as usize);
        self.wr(st, inst, dst, &s)
    }
    fn text(&self, st: &State, inst: usize, p: u64, n: u64) -> R<String> { Ok(String::from_utf8_lossy(&self.rd(st, inst, p, n)?.d).into_owned()) }

    fn msg_input(&self, st: &State) -> SB {
        let m = st.msg.as_ref().unwrap();
        match &m.resp { Some((0, d)) => d.clone(), Some(_) => SB::default(), None => st.ctxs[m.ctx].arg.clone() }
    }

    pub fn host(&mut self, st: &mut State, inst: usize, h: H, a: &[Val], dst: u32) -> R<Hr> {
        // pointers, lengths and the like must be concrete; data stays symbolic
        let mut c = [0u64; 10];
        let keep_sym = match h { H::h_set_time | H::global_timer_set => 0b1, H::h_assume | H::h_check | H::h_is_sym => 0b1, H::h_kill => 0, _ => 0u32 };
        for (i, v) in a.iter().enumerate() { if v.e != 0 && keep_sym >> i & 1 == 0 { c[i] = self.conc(st, *v)?; } else { c[i] = v.c; } }
        let ok = Ok(Hr::None);
        let v = |x: u64| Ok(Hr::V(Val::c(x)));
        macro_rules! msg { () => { match st.msg.as_mut() { Some(m) => m, None => return Err(Stop::Err("ic0 call outside a message".into())) } } }
        match h {
            H::call_new => {
                let (callee, method) = (self.rd(st, inst, c[0], c[1])?, self.rd(st, inst, c[2], c[3])?);
                let m = msg!();
                m.cur = Some(OutCall { can: inst as u8, ctx: m.ctx, callee, method, arg: SB::default(), rf: (c[4] as u32, c[5] as u32), ef: (c[6] as u32, c[7] as u32), cf: None, state: 0, cycles: 0 });
                ok
            }
            H::call_data_append => { let d = self.rd(st, inst, c[0], c[1])?; let m = msg!(); m.cur.as_mut().unwrap().arg.append(&d); ok }
            H::call_on_cleanup => { let m = msg!(); m.cur.as_mut().unwrap().cf = Some((c[0] as u32, c[1] as u32)); ok }
            H::call_cycles_add128 => { let m = msg!(); m.cur.as_mut().unwrap().cycles += c[1]; ok }
            H::call_best_effort => ok,
            H::call_perform => { let m = msg!(); let k = m.cur.take().unwrap(); m.staged.push(k); v(0) }
            H::cost_call => { self.wr(st, inst, c[2], &SB::conc(&[0; 16]))?; ok }
            H::certified_data_set => { let d = self.rd(st, inst, c[0], c[1])?; Rc::make_mut(st.insts[inst].as_mut().unwrap()).cert = d; ok }
            H::msg_reject => {
                let d = self.rd(st, inst, c[0], c[1])?;
                let m = msg!(); let x = m.ctx;
                if st.ctxs[x].reply.is_some() || st.ctxs[x].reject.is_some() { return Err(Stop::Trap("second reply".into())); }
                st.ctxs[x].reject = Some((4, d)); ok
            }
            H::debug_print => { if self.logs { eprintln!("[can {inst}] {}", self.text(st, inst, c[0], c[1])?); } ok }
            H::trap => { let t = self.text(st, inst, c[0], c[1])?; Err(Stop::Trap(if self.concrete.is_some() || self.logs { format!("ic0.trap: {t}") } else { "ic0.trap".into() })) }
            H::msg_reply_data_append => { let d = self.rd(st, inst, c[0], c[1])?; let m = msg!(); let x = m.ctx; st.ctxs[x].out.append(&d); ok }
            H::msg_reply => {
                let m = msg!(); let x = m.ctx;
                if st.ctxs[x].reply.is_some() || st.ctxs[x].reject.is_some() { return Err(Stop::Trap("second reply".into())); }
                let o = std::mem::take(&mut st.ctxs[x].out); st.ctxs[x].reply = Some(o); ok
            }
            H::stable64_size => v(st.insts[inst].as_ref().unwrap().stable.size / 65536),
            H::stable64_grow => {
                let s = &mut Rc::make_mut(st.insts[inst].as_mut().unwrap()).stable;
                let old = s.size / 65536; s.grow_to((old + c[0]) * 65536); v(old)
            }
            H::stable64_write => {
                let d = self.rd(st, inst, c[1], c[2])?;
                let s = &mut Rc::make_mut(st.insts[inst].as_mut().unwrap()).stable;
                if !s.ok(c[0], c[2]) { return Err(Stop::Trap("stable out of bounds".into())); }
                if c[2] > 0 { s.write(c[0], &d); } ok
            }
            H::stable64_read => {
                let s = &st.insts[inst].as_ref().unwrap().stable;
                if !s.ok(c[1], c[2]) { return Err(Stop::Trap("stable out of bounds".into())); }
                let d = s.read(c[1], c[2] as usize);
                self.wr(st, inst, c[0], &d)?; ok
            }
            H::time => Ok(Hr::V(st.time)),
            H::global_timer_set => { let i = Rc::make_mut(st.insts[inst].as_mut().unwrap()); let o = i.timer; i.timer = a[0]; Ok(Hr::V(o)) }
            H::msg_arg_data_size => v(self.msg_input(st).d.len() as u64),
            H::msg_arg_data_copy => { let d = self.msg_input(st); self.copy_out(st, inst, &d, c[0], c[1], c[2])?; ok }
            H::msg_caller_size => { let m = msg!(); let x = m.ctx; v(st.ctxs[x].caller.d.len() as u64) }
            H::msg_caller_copy => { let m = msg!(); let x = m.ctx; let d = st.ctxs[x].caller.clone(); self.copy_out(st, inst, &d, c[0], c[1], c[2])?; ok }
            H::msg_reject_code => { let m = msg!(); v(m.resp.as_ref().map(|r| r.0 as u64).unwrap_or(0)) }
            H::msg_reject_msg_size => { let m = msg!(); v(match &m.resp { Some((k, d)) if *k != 0 => d.d.len() as u64, _ => 0 }) }
            H::msg_reject_msg_copy => { let m = msg!(); let d = match &m.resp { Some((k, d)) if *k != 0 => d.clone(), _ => SB::default() }; self.copy_out(st, inst, &d, c[0], c[1], c[2])?; ok }
            H::canister_self_size => v(st.insts[inst].as_ref().unwrap().id.len() as u64),
            H::canister_self_copy => { let d = SB::conc(&st.insts[inst].as_ref().unwrap().id.clone()); self.copy_out(st, inst, &d, c[0], c[1], c[2])?; ok }
            H::cycle_balance128 | H::liquid_cycle_balance128 => { let mut b = vec![0u8; 16]; b[..8].copy_from_slice(&st.insts[inst].as_ref().unwrap().cycles.to_le_bytes()); self.wr(st, inst, c[0], &SB::conc(&b))?; ok }
            H::canister_version => v(1),
            H::data_certificate_present => { let m = msg!(); v((m.kind == M_QUERY) as u64) }
            H::data_certificate_size => v(8),
            H::data_certificate_copy => { self.copy_out(st, inst, &SB::conc(b"CERTCERT"), c[0], c[1], c[2])?; ok }
            H::performance_counter => v(1000),
            H::is_controller => v(0),
            H::in_replicated => { let m = msg!(); v((m.kind != M_QUERY) as u64) }
            H::accept_message => { st.accepted = true; ok }
            H::method_name_size => v(0),
            H::method_name_copy => ok,
            H::msg_deadline => v(0),
            H::zero128 => { self.wr(st, inst, c[0], &SB::conc(&[0; 16]))?; ok }
            H::unsupported => Err(Stop::Err(format!("unsupported import called in instance {inst}"))),

            // ---- harness ----
            H::h_sym => {
                let w = c[0] as u8;
                let name = self.text(st, inst, c[1], c[2])?;
                let k = { let o = Rc::make_mut(&mut st.occ); let e = o.entry(name.clone()).or_insert(0); let k = *e; *e += 1; k };
                let full = format!("{name}#{k}");
                if let Some(m) = &self.concrete { let x = m.get(&full).copied().unwrap_or(0) & mask(w); return v(x); }
                let e = match self.varmap.get(&full) { Some(e) => *e, None => { let e = self.ar.var(full.clone(), w); self.varmap.insert(full.clone(), e); e } };
                if self.ar.w(e) != w { return Err(Stop::Err(format!("variable {full} used at two widths"))); }
                st.vars.push((full, e));
                let z = self.ar.zext(e, 64);
                Ok(Hr::V(Val::sym(z)))
            }
            H::h_assume => {
                let x = a[0];
                if x.e == 0 { return if x.c != 0 { ok } else { Err(Stop::Killed) }; }
                let z = self.ar.cst(0, 32); let e = self.ar.eq(x.e, z); let e = self.ar.not(e);
                if self.ar.eval(e, &st.model) == 1 { self.add_pc(st, e); return ok; }
                match self.so.check(&self.ar, &st.pc, e) {
                    Res::Unsat => Err(Stop::Killed),
                    Res::Sat(m) => { st.model = self.upd_model(&st.model, m); self.add_pc(st, e); ok }
                    Res::Unknown => { self.incomplete += 1; Err(Stop::Killed) }
                }
            }
            H::h_check => {
                let label = self.text(st, inst, c[1], c[2])?;
                let x = a[0];
                let en = self.checks.entry(label.clone()).or_insert((0, 0)); en.0 += 1;
                if x.e == 0 {
                    if x.c != 0 { return ok; }
                    self.violate(st, label, st.model.clone());
                    return Err(Stop::Killed);
                }
                let z = self.ar.cst(0, 32); let bad = self.ar.eq(x.e, z); let good = self.ar.not(bad);
                if let Some(k) = self.ar.as_const(good) { if k == 1 { return ok; } self.violate(st, label, st.model.clone()); return Err(Stop::Killed); }
                self.checks.get_mut(&label).unwrap().1 += 1;
                match self.so.check(&self.ar, &st.pc, bad) {
                    Res::Unsat => { self.add_pc(st, good); ok }
                    Res::Unknown => { self.incomplete += 1; ok }
                    Res::Sat(m) => {
                        let mm = self.upd_model(&st.model, m);
                        self.violate(st, label, mm);
                        if self.ar.eval(good, &st.model) == 1 { self.add_pc(st, good); return ok; }
                        match self.so.check(&self.ar, &st.pc, good) { Res::Sat(m) => { st.model = self.upd_model(&st.model, m); self.add_pc(st, good); ok } _ => Err(Stop::Killed) }
                    }
                }
            }
            H::h_cover => { let l = self.text(st, inst, c[0], c[1])?; *self.covers.entry(l.clone()).or_insert(0) += 1; st.covers.insert(l); ok }
            H::h_choose => {
                // a solver-chosen index below n; each feasible value is its own path
                let n = c[0];
                let name = "choose".to_string();
                let k = *st.occ.get(&name).unwrap_or(&0);
                let full = format!("{name}#{k}");
                if let Some(m) = &self.concrete { Rc::make_mut(&mut st.occ).insert(name, k + 1); return v(m.get(&full).copied().unwrap_or(0)); }
                let e = match self.varmap.get(&full) { Some(e) => *e, None => { let e = self.ar.var(full.clone(), 8); self.varmap.insert(full.clone(), e); e } };
                for i in 0..n {
                    let kk = self.ar.cst(i, 8); let q = self.ar.eq(e, kk);
                    let pick = if i + 1 == n { self.add_pc(st, q); let mut m = vec![]; if let crate::expr::N::Var(id) = self.ar.n(e) { m.push((id, i)); } st.model = self.upd_model(&st.model, m); true } else { self.decide_pub(st, q)? };
                    if pick { st.vars.push((full, e)); Rc::make_mut(&mut st.occ).insert(name, k + 1); return v(i); }
                }
                Err(Stop::Killed)
            }
            H::h_install => {
                let slot = c[0] as usize;
                let i = self.new_inst(c[1] as usize);
                while st.insts.len() <= slot { st.insts.push(None); }
                st.insts[slot] = Some(Rc::new(i)); ok
            }
            H::h_set_id => { let d = self.rd(st, inst, c[1], c[2])?; Rc::make_mut(st.insts[c[0] as usize].as_mut().unwrap()).id = d.d; ok }
            H::h_upgrade => {
                let slot = c[0] as usize;
                let mut i = self.new_inst(c[1] as usize);
                let old = st.insts[slot].as_ref().unwrap();
                i.stable = old.stable.clone(); i.id = old.id.clone(); i.cycles = old.cycles; i.cert = SB::default(); // certified data does not survive an upgrade
                st.insts[slot] = Some(Rc::new(i)); ok
            }
            H::h_msg => {
                if st.msg.is_some() { return Err(Stop::Err("message inside a message".into())); }
                let (kind, slot) = (c[0] as u8, c[1] as usize);
                let name = self.text(st, inst, c[2], c[3])?;
                let arg = self.rd(st, inst, c[4], c[5])?;
                let caller = self.rd(st, inst, c[6], c[7])?;
                let mo = st.insts[slot].as_ref().unwrap().module;
                let ex = match kind {
                    M_UPDATE => { let u = format!("canister_update {name}"); if self.modules[mo].exports.contains_key(&u) { u } else { format!("canister_query {name}") } }
                    M_QUERY => format!("canister_query {name}"),
                    M_INIT => "canister_init".into(), M_PREUP => "canister_pre_upgrade".into(), M_POSTUP => "canister_post_upgrade".into(),
                    M_TIMER => "canister_global_timer".into(), M_HEARTBEAT => "canister_heartbeat".into(), M_INSPECT => "canister_inspect_message".into(), _ => name.clone(),
                };
                let id = st.ctxs.len();
                let mut cx = Ctx { can: slot as u8, kind, caller, arg, ..Default::default() };
                let f = match self.modules[mo].exports.get(&ex) { Some(f) => *f, None => { cx.status = if kind == M_RAW || kind == M_PREUP || kind == M_POSTUP { 1 } else { 4 }; cx.note = format!("no export {ex}"); st.ctxs.push(cx); return v(id as u64); } };
                st.ctxs.push(cx.clone());
                if kind == M_TIMER { Rc::make_mut(st.insts[slot].as_mut().unwrap()).timer = Val::c(0); }
                let depth = st.frames.len();
                st.msg = Some(Box::new(Msg { ctx: id, kind, snap: st.insts[slot].clone().unwrap(), depth, staged: vec![], cur: None, resp: None, hslot: dst, cleanup: None, ctx_snap: cx }));
                if self.logs { eprintln!("-- msg {kind} {ex}"); }
                self.push_frame_pub(st, slot as u8, f, &[], 0, true);
                Ok(Hr::Entered(depth))
            }
            H::h_respond => {
                if st.msg.is_some() { return Err(Stop::Err("message inside a message".into())); }
                let ix = c[0] as usize; let code = c[1] as u32;
                let data = self.rd(st, inst, c[2], c[3])?;
                let call = st.calls[ix].clone();
                if call.state != 0 { return Err(Stop::Err("call answered twice".into())); }
                st.calls[ix].state = 1;
                let ctx = call.ctx;
                st.ctxs[ctx].open -= 1;
                let slot = call.can as usize;
                let (f, env) = if code == 0 { call.rf } else { call.ef };
                let mo = st.insts[slot].as_ref().unwrap().module;
                let fi = match self.modules[mo].table.get(f as usize) { Some(Some(x)) => *x, _ => return Err(Stop::Err("bad callback".into())) };
                let depth = st.frames.len();
                st.msg = Some(Box::new(Msg { ctx, kind: M_CALLBACK, snap: st.insts[slot].clone().unwrap(), depth, staged: vec![], cur: None, resp: Some((code, data)), hslot: dst, cleanup: call.cf, ctx_snap: st.ctxs[ctx].clone() }));
                self.push_frame_pub(st, slot as u8, fi, &[Val::c(env as u64)], 0, true);
                Ok(Hr::Entered(depth))
            }
            H::h_status => {
                let i = c[1] as usize;
                v(match c[0] { 0 => st.ctxs[i].status as u64, 1 => st.calls[i].state as u64, 2 => st.ctxs[i].reject.as_ref().map(|r| r.0 as u64).unwrap_or(0), 3 => st.calls[i].can as u64, 4 => st.calls[i].ctx as u64, 5 => st.accepted as u64, _ => 0 })
            }
            H::h_len => { let d = self.field(st, c[0], c[1] as usize); v(d.d.len() as u64) }
            H::h_read => { let d = self.field(st, c[0], c[1] as usize); self.wr(st, inst, c[2], &d)?; ok }
            H::h_set_time => { st.time = a[0]; ok }
            H::h_ncalls => v(st.calls.len() as u64),
            H::h_timer => Ok(Hr::V(st.insts[c[0] as usize].as_ref().unwrap().timer)),
            H::h_log => { if self.logs || self.concrete.is_some() || self.verbose { let s = self.text(st, inst, c[0], c[1])?; eprintln!("[h] {s}"); } ok }
            H::h_kill => Err(Stop::Killed),
            H::h_is_sym => v((a[0].e != 0) as u64),
            H::h_conc => v(c[0]),
            H::h_param => v(self.params.get(c[0] as usize).copied().unwrap_or(0)),
        }
    }
    fn field(&self, st: &State, what: u64, i: usize) -> SB {
        match what { 0 => st.ctxs[i].reply.clone().unwrap_or_default(), 1 => st.ctxs[i].reject.as_ref().map(|r| r.1.clone()).unwrap_or_default(), 2 => st.calls[i].callee.clone(), 3 => st.calls[i].method.clone(), 4 => st.calls[i].arg.clone(), 5 => st.insts[i].as_ref().unwrap().cert.clone(), _ => SB::conc(st.ctxs[i].note.as_bytes()) }
    }
    fn violate(&mut self, st: &State, label: String, model: Rc<Vec<u64>>) {
        let n = self.seen_viol.entry(label.clone()).or_insert(0);
        *n += 1;
        if *n > self.max_viol { return; }
        let vals: Vec<(String, u64)> = match &self.concrete {
            Some(m) => { let mut v: Vec<_> = m.iter().map(|(k, x)| (k.clone(), *x)).collect(); v.sort(); v }
            None => st.vars.iter().map(|(nm, e)| (nm.clone(), self.ar_eval(*e, &model))).collect(),
        };
        self.violations.push(Violation { label, values: vals, note: String::new() });
    }
    pub fn ar_eval(&self, e: E, model: &[u64]) -> u64 { if let N::Var(i) = self.ar.n(e) { model.get(i as usize).copied().unwrap_or(0) & mask(self.ar.w(e)) } else { 0 } }
}
