//! glmmc <property> <quick|thorough> [--only <state key>]
mod cdf;
mod dispatch;
mod facts;
mod props;
mod refm;
mod space;
mod stats;
use space::*;
use std::fmt::Write as _;
use std::time::Instant;

/// The library's LAPACK writes diagnostics to stdout; the report goes to a descriptor of its own.
pub fn say_line(s: std::fmt::Arguments) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    use std::sync::OnceLock;
    static OUT: OnceLock<std::sync::Mutex<std::fs::File>> = OnceLock::new();
    let f = OUT.get_or_init(|| {
        let fd = if std::env::var("GLMMC_FD").is_ok() { 3 } else { 1 };
        std::sync::Mutex::new(unsafe { std::fs::File::from_raw_fd(fd) })
    });
    let _ = writeln!(f.lock().unwrap(), "{s}");
}
#[macro_export]
macro_rules! say {
    ($($t:tt)*) => { $crate::say_line(format_args!($($t)*)) };
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        say!("usage: glmmc <property> <quick|thorough> [--only <state key>]");
        std::process::exit(2);
    }
    let prop = a[1].as_str();
    let th = a[2] == "thorough";
    let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].as_str());
    let t0 = Instant::now();
    let Some(groups) = props::groups(prop, th) else {
        say!("unknown property {prop}");
        std::process::exit(2);
    };
    let o = explore(&groups, only, prop);
    let wall = t0.elapsed().as_secs_f64();
    say!(
        "{prop} {}: {} states, {} transitions, {} states compared with the reference, {wall:.1} s",
        a[2],
        o.states + o.ctx.inner_states,
        o.ctx.transitions + o.data_edges,
        o.ctx.traces
    );
    for (k, v) in &o.ctx.counts {
        say!("  {k}: {v}");
    }
    for (k, v) in o.ctx.times.iter().filter(|_| std::env::var("GLMMC_TIMES").is_ok()) {
        crate::say!("  time {k:?}: {:.1} s, {} states", v.0.as_secs_f64(), v.1);
    }
    for (k, v) in o.ctx.maxima.iter().filter(|_| std::env::var("GLMMC_MAX").is_ok()) {
        say!("  max deviation/tolerance {k}: {:.2e}  at {}", v.0, v.1);
    }
    for (k, v) in &o.ctx.findings {
        say!("KNOWN-FINDING: property={prop} {k} ({} states, first {})", v.0, v.1);
    }
    if only.is_none() {
        write_evidence(prop, th, wall, &o);
    }
    if let Some((k, m)) = &o.violation {
        say!("{k}\n{m}");
        let f = write_replay(prop, k, m);
        say!("VIOLATION property={prop} replay={f}");
        std::process::exit(1);
    }
    if o.states == 0 {
        say!("no state matched");
        std::process::exit(2);
    }
}

fn write_evidence(prop: &str, th: bool, wall: f64, o: &Outcome) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut s = String::new();
    let mut samples = o.ctx.samples.clone();
    samples.sort();
    samples.dedup();
    samples.truncate(6);
    let _ = write!(
        s,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"wall_s\": {wall:.2}, \"violations\": {},\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n",
        js(prop),
        js(if th { "thorough" } else { "quick" }),
        o.violation.is_some() as i32,
        o.states + o.ctx.inner_states,
        o.ctx.transitions + o.data_edges,
        o.ctx.traces,
        o.violation.is_none()
    );
    let _ = write!(s, "  \"outcomes\": {{{}}},\n", o.ctx.counts.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    let _ = write!(
        s,
        "  \"largest_deviation_over_tolerance\": {{{}}},\n",
        o.ctx.maxima.iter().filter(|(_, v)| v.0.is_finite()).map(|(k, v)| format!("{}: {:e}", js(k), v.0)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(s, "  \"worlds\": [{}],\n", o.worlds.iter().map(|w| js(w)).collect::<Vec<_>>().join(", "));
    let _ = write!(s, "  \"samples\": [\n   {}\n  ]\n }},\n", samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(
        s,
        " \"assumptions\": [\"states without a unique finite optimum or numerically delicate are explored but their values are not decided (counted under outcomes)\", \"the reference model in /verif/harness/src/refm.rs\"]\n}}\n"
    );
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{prop}.json")), s);
}
