//! Scripts in, events out (plain text lines in, JSON lines out).
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub op: String,
    pub h: usize,
    pub k: i64,
    pub j: i64,
    /// 1 = write / supply values
    pub w: i64,
    pub kind: String,
    pub xs: Vec<i64>,
}

pub struct Session {
    pub id: usize,
    pub subject: String,
    pub key: String,
    pub val: String,
    pub ops: Vec<Op>,
}

/// The same in a form that takes no parsing (for an interpreter): names, then
/// sessions of fixed-width records.
fn read_binary(path: &str) -> Vec<Session> {
    let b = crate::io::read(path);
    // (one pointer for all: borrowing the whole buffer again and again takes an interpreter long)
    let (p, len) = (b.as_ptr(), b.len());
    let word = |at: usize| -> [i32; 8] {
        assert!(32 * at + 32 <= len);
        unsafe { (p.add(32 * at) as *const [i32; 8]).read_unaligned() }
    };
    let (count, names, pool, mut at) = { let h = word(0); (h[0], h[1], h[2] as usize, 1) };
    let mut nm: Vec<String> = vec![];
    for _ in 0..names {
        let r = &b[32 * at..32 * at + 32];
        nm.push(String::from_utf8(r[1..1 + r[0] as usize].to_vec()).unwrap());
        at += 1;
    }
    let mut out = vec![];
    for id in 0..count {
        let h = word(at);
        at += 1;
        let mut ops = Vec::with_capacity(h[3] as usize);
        for _ in 0..h[3] {
            let r = word(at);
            at += 1;
            let mut xs = vec![];
            for i in 0..r[7] {
                xs.push(word(pool + (r[6] + i) as usize / 8)[(r[6] + i) as usize % 8] as i64);
            }
            ops.push(Op {
                op: nm[r[0] as usize].clone(),
                h: r[1] as usize,
                k: r[2] as i64,
                j: r[3] as i64,
                w: r[4] as i64,
                kind: if r[5] == 0 { String::new() } else { nm[r[5] as usize].clone() },
                xs,
            });
        }
        out.push(Session { id: id as usize, subject: nm[h[0] as usize].clone(), key: nm[h[1] as usize].clone(), val: nm[h[2] as usize].clone(), ops });
    }
    out
}
/// Record nothing but the progress.
pub fn mute() -> bool {
    crate::io::has_var("HARNESS_MUTE")
}

/// session <id> <subject> <key> <val>
/// <op> <h> <k> <j> <w> <kind|-> <xs|->
/// end
pub fn read_sessions(path: &str) -> Vec<Session> {
    if path.ends_with(".bin") {
        return read_binary(path);
    }
    let f = crate::io::read(path);
    let mut out = Vec::new();
    let mut cur: Option<Session> = None;
    for line in std::str::from_utf8(&f).expect("script").lines() {
        let p: Vec<&str> = line.split_whitespace().collect();
        if p.is_empty() {
            continue;
        }
        if p[0] == "session" {
            cur = Some(Session {
                id: p[1].parse().unwrap(),
                subject: p[2].into(),
                key: p[3].into(),
                val: p[4].into(),
                ops: Vec::new(),
            });
        } else if p[0] == "end" {
            out.push(cur.take().unwrap());
        } else {
            let xs = if p[6] == "-" {
                Vec::new()
            } else {
                p[6].split(',').map(|x| x.parse().unwrap()).collect()
            };
            cur.as_mut().unwrap().ops.push(Op {
                op: p[0].into(),
                h: p[1].parse().unwrap(),
                k: p[2].parse().unwrap(),
                j: p[3].parse().unwrap(),
                w: p[4].parse().unwrap(),
                kind: if p[5] == "-" { String::new() } else { p[5].into() },
                xs,
            });
        }
    }
    out
}

/// One recorded call.
#[derive(Clone, Debug, Default)]
pub struct Event {
    pub op: String,
    pub h: usize,
    pub k: i64,
    pub j: i64,
    pub w: i64,
    pub v: i64,
    pub kind: String,
    pub xs: Vec<i64>,
    pub vs: Vec<i64>,
    pub ret: Vec<i64>,
    pub drops: Vec<i64>,
    pub dbg: String,
    /// who owned what: identities made (from, below), handed back, looked at; objects alive afterwards
    pub own: Option<Own>,
}
#[derive(Clone, Debug, Default)]
pub struct Own {
    pub made: (i64, i64),
    pub back: Vec<i64>,
    pub seen: Vec<i64>,
    pub alive: usize,
}
/// Follows who owns what, call by call (only when asked for: HARNESS_OWN).
pub struct Ledger {
    on: bool,
    events: usize,
    held: usize,
    made: i64,
}
impl Ledger {
    pub fn new() -> Self {
        Ledger { on: crate::io::has_var("HARNESS_OWN"), events: 0, held: 0, made: crate::tok::next_id() }
    }
    /// After each call of the script.
    pub fn after<V: crate::tok::Val>(&mut self, ev: &mut Vec<Event>, held: &[V], alive: usize) {
        if !self.on || !V::TRACK || ev.len() == self.events {
            return;
        }
        let made = (self.made, crate::tok::next_id());
        let seen = crate::tok::take_seen();
        let back = held[self.held..].iter().map(|v| v.id()).collect();
        crate::tok::take_seen();
        ev.last_mut().unwrap().own = Some(Own { made, back, seen, alive });
        *self = Ledger { on: true, events: ev.len(), held: held.len(), made: made.1 };
    }
}
impl Event {
    pub fn of(o: &Op) -> Event {
        Event {
            op: o.op.clone(),
            h: o.h,
            k: o.k,
            j: o.j,
            kind: o.kind.clone(),
            ..Event::default()
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn json_ints(v: &[i64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}
impl Event {
    pub fn json(&self) -> String {
        let own = self.own.as_ref().map_or(String::new(), |o| format!(
            ",\"lo\":{},\"hi\":{},\"back\":{},\"seen\":{},\"alive\":{}",
            o.made.0, o.made.1, json_ints(&o.back), json_ints(&o.seen), o.alive));
        format!(
            "{{\"op\":{},\"h\":{},\"k\":{},\"j\":{},\"w\":{},\"v\":{},\"kind\":{},\"xs\":{},\"vs\":{},\"ret\":{},\"drops\":{},\"dbg\":{}{}}}",
            json_str(&self.op), self.h, self.k, self.j, self.w, self.v, json_str(&self.kind),
            json_ints(&self.xs), json_ints(&self.vs), json_ints(&self.ret), json_ints(&self.drops),
            json_str(&self.dbg), own
        )
    }
}

/// Clamp a usize for TLC's 32-bit integers.
pub fn clamp(n: usize) -> i64 {
    n.min(2_000_000_000) as i64
}

static TICK: AtomicU64 = AtomicU64::new(0);
static NOW: AtomicU64 = AtomicU64::new(0);

pub fn tick(id: usize) {
    TICK.fetch_add(1, Ordering::Relaxed);
    NOW.store(id as u64, Ordering::Relaxed);
    crate::io::progress(id as u64);
}
/// Exit with code 97 when no tick comes for `limit` seconds.
pub fn watch(limit: u64) {
    // (on wasm32 whoever runs this keeps watch)
    if limit > 0 && !cfg!(target_arch = "wasm32") {
        std::thread::spawn(move || {
            let mut last = (u64::MAX, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let t = TICK.load(Ordering::Relaxed);
                if t == last.0 {
                    last.1 += 1;
                    if last.1 >= limit {
                        eprintln!("session {} hangs", NOW.load(Ordering::Relaxed));
                        std::process::exit(97);
                    }
                } else {
                    last = (t, 0);
                }
            }
        });
    }
}

/// Run all sessions of the script named on the command line.
/// argv: <script> <out.ndjson> [<seconds per session>]
pub fn main_with(run: impl Fn(&Session) -> (usize, bool, Vec<Event>)) {
    let args = crate::io::args();
    let sessions = read_sessions(&args[1]);
    let limit: u64 = args.get(3).map_or(60, |s| s.parse().unwrap());
    if !crate::io::has_var("HARNESS_LOUD") {
        crate::io::quiet();
    }
    watch(limit);
    let file = crate::io::create(&args[2]);
    let muted = mute();
    let mut out = std::io::BufWriter::new(file);
    for s in &sessions {
        tick(s.id);
        crate::tok::reset();
        crate::keys::noise(0, 0);
        let (n, track, ev) = run(s);
        if muted {
            writeln!(out, "{}", s.id).unwrap();
            out.flush().unwrap();
            continue;
        }
        let evs: Vec<String> = ev.iter().map(|e| e.json()).collect();
        writeln!(
            out,
            "{{\"id\":{},\"subject\":{},\"key\":{},\"val\":{},\"n\":{},\"track\":{},\"ev\":[{}]}}",
            s.id,
            json_str(&s.subject),
            json_str(&s.key),
            json_str(&s.val),
            clamp(n),
            track,
            evs.join(",")
        )
        .unwrap();
        out.flush().unwrap();
    }
}
