mod exec; mod expr; mod host; mod mem; mod sha; mod solver; mod wasm;
use exec::Engine;
use std::collections::HashMap;
use std::fmt::Write;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }

/// wsym HARNESS.wasm --module a.wasm --module b.wasm --run h_name [--concrete values] [--out f.json] [--time-limit s] [--logs] [--verbose] [--list]
fn main() {
    // expression traversal is recursive
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap();
    if t.join().is_err() { std::process::exit(3); }
}
fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut mods = vec![args[1].clone()];
    let (mut run, mut out, mut conc, mut tl, mut logs, mut verbose, mut list, mut zt, mut crc) = (String::new(), None, None, 600u64, false, false, false, 20000u32, false);
    let mut params: Vec<u64> = vec![];
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--module" => { i += 1; mods.push(args[i].clone()); }
            "--run" => { i += 1; run = args[i].clone(); }
            "--out" => { i += 1; out = Some(args[i].clone()); }
            "--concrete" => { i += 1; conc = Some(args[i].clone()); }
            "--time-limit" => { i += 1; tl = args[i].parse().unwrap(); }
            "--z3-timeout" => { i += 1; zt = args[i].parse().unwrap(); }
            "--exact-crc" => crc = true,
            "--param" => { i += 1; params.push(args[i].parse().unwrap()); }
            "--logs" => logs = true, "--verbose" => verbose = true, "--list" => list = true,
            x => panic!("arg {x}"),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let modules: Vec<wasm::Module> = mods.iter().map(|p| wasm::Module::parse(std::fs::read(p).unwrap_or_else(|e| panic!("{p}: {e}")))).collect();
    if list { let mut v: Vec<_> = modules[0].exports.keys().filter(|k| k.starts_with("h_")).cloned().collect(); v.sort(); for x in v { println!("{x}"); } return; }
    let mut e = Engine::new(modules, zt, crc);
    e.logs = logs; e.params = params; e.verbose = verbose;
    e.deadline = Instant::now() + Duration::from_secs(tl);
    if let Some(p) = conc {
        let mut m = HashMap::new();
        for l in std::fs::read_to_string(p).unwrap().lines() { if let Some((k, v)) = l.trim().rsplit_once('=') { m.insert(k.to_string(), v.parse().unwrap()); } }
        e.concrete = Some(m); e.no_icpt = true;
    }
    let st = match e.start(&run) { Ok(s) => s, Err(s) => { eprintln!("{s}"); std::process::exit(3); } };
    // deep recursion in expression evaluation and translation
    e.explore(st);
    if verbose {
        let mut v: Vec<_> = e.prof.iter().map(|((m, f, p), x)| (x.1, x.0, format!("{}@{}", e.modules[*m].funcs[*f as usize].name, p))).collect();
        v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        for x in v.iter().take(25) { eprintln!("{:8.2}s {:6} {}", x.0, x.1, x.2); }
    }
    let mut o = String::from("{");
    let _ = write!(o, "\"harness\":{},\"concrete\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"instructions\":{},\"wall_s\":{:.3},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"incomplete\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"fmt_aborts\":{},\"sha_symbolic\":{},\"z3\":{},\"vars\":{},\"exprs\":{}",
        esc(&run), e.concrete.is_some(), e.paths, e.killed, e.forks, e.instrs, t0.elapsed().as_secs_f64(), e.so.queries, e.so.cache_hits, e.so.sat, e.so.unsat, e.so.unknown, e.incomplete, e.so.time.as_secs_f64(), e.so.max.as_secs_f64(), e.fmt_aborts, e.sha_sym, esc(&solver::Solver::version()), e.ar.vars.len(), e.ar.nodes.len());
    o += ",\"checks\":{"; o += &e.checks.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(","); o += "}";
    o += ",\"covers\":{"; o += &e.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","); o += "}";
    o += ",\"traps\":{"; o += &e.traps.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","); o += "}";
    o += ",\"errors\":["; o += &e.errors.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","); o += "]";
    o += ",\"violations\":["; o += &e.violations.iter().map(|v| format!("{{\"label\":{},\"values\":{{{}}}}}", esc(&v.label), v.values.iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","); o += "]";
    o += ",\"samples\":["; o += &e.samples.iter().map(|(c, v)| format!("{{\"covers\":[{}],\"values\":{{{}}}}}", c.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), v.iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","); o += "]";
    o += ",\"violation_counts\":{"; o += &e.seen_viol.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","); o += "}";
    let mut fr: Vec<String> = vec![]; let mut nrun = 0;
    for (mo, v) in e.funcs_run.iter().enumerate().skip(1) { for (i, r) in v.iter().enumerate() { if *r { nrun += 1; let n = &e.modules[mo].funcs[i].name; if n.contains("core_nft") || n.contains("index_icrc7") || n.contains("cli::") { fr.push(n.clone()); } } } }
    fr.sort(); fr.dedup();
    let _ = write!(o, ",\"functions_executed\":{},\"functions\":[{}]", nrun, fr.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    let mut fs: Vec<(u64, String)> = e.fork_sites.iter().map(|((m, f, p), n)| (*n, format!("{}@{}", e.modules[*m].funcs[*f as usize].name, p))).collect();
    fs.sort(); fs.reverse();
    let _ = write!(o, ",\"fork_sites\":[{}]", fs.iter().take(25).map(|(n, s)| format!("[{},{}]", n, esc(s))).collect::<Vec<_>>().join(","));
    let mut sb: Vec<String> = e.funcs_sym.iter().filter(|x| x.0 > 0).map(|(m, f)| e.modules[*m].funcs[*f as usize].name.clone()).collect(); sb.sort(); sb.dedup();
    let _ = write!(o, ",\"branched_on_symbolic\":[{}]", sb.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    o += "}";
    match out { Some(p) => std::fs::write(p, o).unwrap(), None => println!("{o}") }
}
