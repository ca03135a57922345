//! Program text that is cut off, corrupted, duplicated or lost in part, given
//! as lines, as one source or as files, in several rounds to one machine
//! (C15). What comes before the damage must have its usual effect, a word
//! that is no word must be reported, and the machine must work as before
//! afterwards.
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut};
use rtforth::memory::Memory;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum D {
    Cut(u32),
    Put(u32, u32),
    Insert(u32, u32),
    Lose(u32, u32),
    /// Position, length, times.
    Repeat(u32, u32, u32),
    /// From, length, to.
    Copy(u32, u32, u32),
    /// A character that makes the n-th plain word no word, at byte m of it.
    Bad(u32, u32, u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Round {
    /// 0 lines, 1 a file, 2 one source, 3 a file included by a file.
    pub feed: u8,
    /// Interpreted by EVALUATE-INPUT, a bounded number of steps.
    pub stepped: bool,
    pub damage: Vec<D>,
    pub chunks: Vec<u32>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub host: u8,
    pub handler: u8,
    /// Room left in the data space, 0: all there is.
    pub tight: u32,
    /// 1: no newline at the end, 2: CR LF.
    pub style: u8,
    /// Items ("!..." are plain words).
    pub lines: Vec<Vec<String>>,
    pub rounds: Vec<Round>,
}

const PLAIN: &[&str] = &[
    "{k} note", "1 2 + note", "$ff note", "%101 note", "-7 abs note", "10 3 mod note", "true note", "7 dup * note", "2.5e 2e f* f>s note", "1e3 f>s note", ": d{k} {k} note ; d{k}", ": e{k} dup 3 > if drop {k} else drop 0 then ; 5 e{k} note",
    "variable v{k} 5 v{k} ! v{k} @ note", "9 constant c{k} c{k} note", "create a{k} 5 , 6 , a{k} cell+ @ note", "create b{k} 0 , 0 , 7 b{k} ! b{k} @ note", ": g{k} case 1 of 10 endof 2 of 20 endof 30 swap endcase ; 2 g{k} note", ": i{k} {k} note ; immediate : ii{k} i{k} ;",
    "hex ff note decimal", "marker m{k} 5 note m{k}", "2variable w{k} 1 2 w{k} 2! w{k} 2@ + note", "3e fconstant h{k} h{k} f>s note", ": q{k} [ 5 ] literal note ; q{k}", ": p{k} postpone dup ; immediate : pp{k} p{k} + ; 4 pp{k} note", "defer f{k} f{k} {k} note",
    ": j{k} noop {k} note ; ' j{k} execute", "turn {k} note turn", "1 2 swap over rot 2drop note", ": d{k}\n {k} note\n;\nd{k}", ": e{k} if\n 5 else\n 6 then\n; true e{k} note", "5 , here drop align", "me note", "$-1f note", "9223372036854775807 note", "-9223372036854775808 note", "1.5E-3 fdrop", "50 mm fdrop", "{k} negate note", "'c' note", "'1' note", "'(' note", "$7f 'z' - note", "%-11 note", "+5 note"
];
const OTHER: &[&str] = &[
    "( comment {k} ) {k} note", ": aa{k} s\\\" abc\" nip note ; aa{k}", ": aa{k} s\\\" a\u{e9}\u{6f22}\" nip note ; aa{k}", ": aa{k} .\" hello {k}\" ; aa{k}", ".( shown {k}) {k} note", ".( \u{6f22}\u{5b57})", "char A note", ": k{k} [char] B note ; k{k}", "'c' note", "'\u{e9}' note", "char \u{6f22} note", "\\ comment {k}", "\\ \u{e9}\u{6f22}\u{1f600}", ": s{k} s\\\" text\" type ; s{k}",
    ": s{k} s\\\" \u{6f22}\u{5b57}\" type ; s{k}", ": o{k} .\\\" out \u{e9}\" ; o{k}", "parse-word abc token-empty? note", "32 word xyz count nip note", "32 word \u{6f22}\u{5b57} count nip note", ".s", "5 . -7 . $5f .", "include good", ": aa{k} s\\\" good\" included ; aa{k}", "65 emit", "words", "2.5e f. -1e10 f.", "( \n", ": y{k} ( a -- b\n ) dup\n {k} note ; y{k}", "41 parse abc) {k} note", "$7f emit",
    ": aa{k} s\\\" a\u{e9}\" drop 2 type ; aa{k}", "32 word \u{e9}b count 1 /string type", "pad 5 33 fill pad 5 type", "here 8 dump", "' dup .word", "source type", ".token", "\\\\", "( a ( b ) {k} note", "s\\\" unfinished", ".\\\" unfinished", ".( unfinished", "char", "'", "[']", "create", "postpone", "[char]", "word",
];
/// Words that loop, or may loop when damaged.
const LOOPS: &[&str] = &[
    ": l{k} 3 0 do i note loop ; l{k}", ": u{k} 0 begin 1+ dup 3 > until note ; u{k}", ": w{k} 3 begin dup while 1- repeat note ; w{k}", ": r{k} dup if 1- recurse then ; 3 r{k} note", ": x{k} 5 >r 6 r> + note ; x{k}", ": x{k} 5 0 do i 3 = if leave then loop ; x{k}", ": x{k} 0 0 ?do i loop {k} note ; x{k}", ": x{k} 9 0 do i note 4 +loop ; x{k}",
    ": n{k} 0labels 3 [ 1 ] label 1- dup 0= if drop else [ 1 ] goto then ; {k} note", ": z{k} create , does> @ ; 5 z{k} zz{k} zz{k} note", ": t{k} 5 0 do i 2 = if unloop exit then loop ; t{k} {k} note", ": bb{k} begin 1 until {k} note ; bb{k}", ": x{k} 2 0 do 2 0 do i j + note loop loop ; x{k}", ": v{k} 5 0 do\n i\n note\n loop\n; v{k}",
];
const BYTES: &[&[u8]] = &[
    b" ", b"\n", b"\r", b"\t", b"\"", b"'", b"\\", b"(", b")", b"$", b"%", b"-", b".", b"e", b"9", b"0", b":", b";", b"[", b"]", b",", b"@", b"!", b"x", b"E", b"+", b"\x00", b"\x01", b"\x7f", b"\x0b", b"\x0c", b"\x1b", b"\x80", b"\xff", b"\xc3", b"\xe6\xbc", b"\xf0\x9f", "\u{e9}".as_bytes(), "\u{6f22}".as_bytes(), "\u{1f600}".as_bytes(), "\u{feff}".as_bytes(), "\u{85}".as_bytes(), "\u{a0}".as_bytes(), "\u{2028}".as_bytes(), "\u{301}".as_bytes(),
    b"\r\n", b"\n\n", b" s\" ", b" ( ", b" .\" ", b" ' ", b" : ", b" ; ", b" [ ", b" ] ", b" char ", b" \\ ", b" if ", b" then ", b" else ", b" of ", b" endcase ", b" postpone ", b" immediate ", b" create ", b" constant ", b" parse-word ", b" 34 parse ", b" -1 ", b" 99999999999999999999999 ", b" 1e999 ", b" e ", b" - ", b" $ ", b" % ", b" '' ", b" ''' ", b" $- ", b" 1e ", b" 1e- ", b" .e ", b" marker ", b" does> ", b" literal ", b" emit ", b" base ! ", b" include ", b" -5 ", b" 1000 parse ", b" @ ", b" c@ ", b" exit ", b" leave ", b" i ", b" label ", b" goto ", b" literal "
];
const BADS: &[&[u8]] = &[
    b"\x01", b"\0", b"\x0b", b"\x0c", b"\x7f", "\u{e9}".as_bytes(), "\u{6f22}".as_bytes(), "\u{1f600}".as_bytes(), "\u{a0}".as_bytes(), "\u{feff}".as_bytes(), "\u{2028}".as_bytes(), "\u{85}".as_bytes(),
    // Not text.
    b"\xff", b"\x80", b"\xc3", b"\xe6\xbc", b"\xed\xa0\x80", b"\xc0\xaf",
    // Digits above the base.
    b"a", b"~", b"G",
];
const STEPS: u64 = 150_000;

static mut EV: Vec<(i64, Vec<i64>)> = Vec::new();
fn ev() -> &'static mut Vec<(i64, Vec<i64>)> {
    unsafe { &mut *(&raw mut EV) }
}
fn w_note<H: Host>(vm: &mut H) {
    let u = std::mem::replace(&mut sim().in_sut, false);
    if vm.s_stack().len > 0 {
        let k = vm.s_stack().pop() as i64;
        let s = data(vm);
        sim().evn(k);
        if ev().len() < 5_000 {
            ev().push((k, s));
        }
    }
    sim().in_sut = u;
}

struct Text {
    bytes: Vec<u8>,
    /// Plain words: (start, end).
    plain: Vec<(usize, usize)>,
}

fn compose(p: &Plan, stepped: bool) -> Text {
    let mut bytes = Vec::new();
    let mut plain = Vec::new();
    let mut k = 100;
    for l in &p.lines {
        let mut safe = true;
        for (n, item) in l.iter().enumerate() {
            k += 1;
            let pl = item.starts_with('!');
            if item.starts_with('*') && !stepped {
                continue;
            }
            let t = item.trim_start_matches(|c| c == '!' || c == '*').replace("{k}", &k.to_string()).replace("\\\"", "\"");
            if n > 0 && !bytes.is_empty() {
                bytes.push(b' ');
            }
            let at = bytes.len();
            bytes.extend_from_slice(t.as_bytes());
            if pl && safe {
                let mut s = at;
                let mut last = "";
                for w in t.split(|c| c == ' ' || c == '\n') {
                    if !w.is_empty() {
                        // A new name may be anything.
                        if ![":", "variable", "2variable", "constant", "fconstant", "create", "marker", "defer"].contains(&last) {
                            plain.push((s, s + w.len()));
                        }
                        last = w;
                    }
                    s += w.len() + 1;
                }
            } else if !pl {
                // The rest of the line may be a comment.
                safe = false;
            }
        }
        if p.style & 2 != 0 {
            bytes.push(b'\r');
        }
        bytes.push(b'\n');
    }
    if p.style & 1 != 0 {
        bytes.pop();
    }
    Text { bytes, plain }
}

/// Returns whether a word that is no word must be reported.
fn damage(t: &Text, ds: &[D]) -> (Vec<u8>, Option<usize>) {
    let mut b = t.bytes.clone();
    let mut bad = None;
    for d in ds {
        let n = b.len() as u64 + 1;
        let pos = |x: &u32| (*x as u64 * n >> 32) as usize;
        match d {
            D::Cut(at) => b.truncate(pos(at)),
            D::Put(at, x) => {
                let at = pos(at);
                if at < b.len() {
                    b.splice(at..at + 1, BYTES[*x as usize % BYTES.len()].iter().cloned());
                }
            }
            D::Insert(at, x) => {
                let at = pos(at);
                b.splice(at..at, BYTES[*x as usize % BYTES.len()].iter().cloned());
            }
            D::Lose(at, len) => {
                let at = pos(at);
                let e = (at + *len as usize % 4096).min(b.len());
                b.drain(at..e);
            }
            D::Repeat(at, len, times) => {
                let at = pos(at);
                let e = (at + 1 + *len as usize % 200).min(b.len());
                let part = b[at..e].to_vec();
                let mut m = Vec::new();
                for _ in 0..*times % 3000 {
                    if m.len() > 20_000 {
                        break;
                    }
                    m.extend_from_slice(&part);
                }
                b.splice(at..at, m);
            }
            D::Copy(at, len, to) => {
                let at = pos(at);
                let e = (at + 1 + *len as usize % 200).min(b.len());
                let part = b[at..e].to_vec();
                let to = pos(to);
                b.splice(to..to, part);
            }
            D::Bad(w, m, x) => {
                if ds.len() == 1 && !t.plain.is_empty() {
                    let (s, e) = t.plain[*w as usize % t.plain.len()];
                    let mut at = s + *m as usize % (e - s + 1);
                    let mut x = *x as usize % BADS.len();
                    if BADS[x] == b"a" && !(e - s > 1 && b[s..e].iter().all(|c| c.is_ascii_digit())) {
                        x += 1;
                    }
                    if BADS[x] == b"a" && at == s {
                        at += 1;
                    }
                    while at > s && b.get(at).map(|c| c & 0xC0 == 0x80).unwrap_or(false) {
                        at -= 1;
                    }
                    b.splice(at..at, BADS[x].iter().cloned());
                    bad = Some(at);
                }
            }
        }
    }
    b.truncate(60_000);
    (b, bad)
}

fn error_of<H: Host>(vm: &mut H) -> Option<i64> {
    vm.last_error().map(|e| {
        let n: isize = e.into();
        n as i64
    })
}

/// May the text wait or loop? (Damage can make such a word of others.)
fn waits(b: &[u8]) -> bool {
    const W: &[&str] = &["nod", "ms", "stop", "halt", "get", "again", "until", "repeat", "loop", "+loop", "recurse", "source-idx!", "pause", "activate", "goto", "suspend", "execute", "r>", ">r", "branch", "0branch"];
    String::from_utf8_lossy(b).split_whitespace().any(|t| W.iter().any(|w| t.eq_ignore_ascii_case(w)))
}

/// Interpret a line; (error, did not end).
fn feed<H: Host>(vm: &mut H, s: &str, stepped: bool, eval: usize) -> (Option<i64>, bool) {
    if !stepped {
        return (line(vm, s), false);
    }
    sut(|| {
        vm.set_source(s);
        vm.execute_word(eval);
        for _ in 0..STEPS {
            if !vm.forth() {
                return;
            }
        }
    });
    let mut n = 0;
    let ip = vm.state().instruction_pointer;
    let more = vm.data_space().has_range(ip, 8);
    while more && vm.current_task() != 0 && n < 10_000 {
        sut(|| vm.forth());
        n += 1;
    }
    (error_of(vm), more)
}

fn prelude<H: Host>(vm: &mut H, p: &Plan) {
    vm.add_primitive("note", w_note::<H>);
    let h = match p.handler % 3 {
        0 => "bye",
        1 => ".token flush-output bye",
        _ => "decimal error . .token .backtrace flush-output bye",
    };
    load(vm, &format!("variable ticks 0 ticks !\n: turn pause ;\n: onerr me 1 = if {} else reset nod then ;\n' onerr handler!\n: ticker 2 activate begin 1 ticks +! pause again ; ticker\ncreate padding 8000 allot", h));
    if p.tight > 0 {
        let room = vm.data_space().limit() - vm.data_space().here();
        if room > p.tight as usize {
            vm.data_space().allot((room - p.tight as usize) as isize & !15);
        }
    }
    load(vm, "marker clean\n: last-word ;");
}

/// Text sources as the host reads lines of them.
fn split(b: &[u8]) -> Vec<String> {
    b.split(|&c| c == b'\n').map(|l| String::from_utf8_lossy(l).into_owned()).collect()
}

const SANE: &str = "turn turn
: s1 0 swap 0 do i + loop ; 5 s1 note
: s2 dup 3 > if drop 1 else drop 2 then ; 5 s2 note 1 s2 note
variable sv 7 sv ! sv @ note
: s3 0 begin 1+ dup 4 > until ; s3 note  ( comment ) 15 note
include good
: s4 s\" abcd\" nip ; s4 note $-10 note ' s2 drop 2.5e 2e f* f>s note char Z note \\ rest
: s5
  99 note
;
: s7 s\" 1 2 98 note
 nip note ; s7 ( 97 note
.( 96 note
: s9 s\" \u{e9}\u{6f22}\" 93 note nip note ; s9 ( \u{6f22}\u{e9}) 92 note
: s10 [char] \u{6f22} note .\" \u{6f22}\u{5b57}\" 91 note ; s10 32 word \u{e9}\u{6f22}x count nip note .( \u{e9}\u{e9}) 90 note 'a' note
: s8 .\" 95 note
94 note ; s8
: s6 s\" ok\" type ; s5 s6";
const SANE_NOTES: &[i64] = &[10, 1, 2, 7, 5, 15, 4242, 4, -16, 5, 90, 11, 93, 5, 92, 28450, 91, 6, 90, 97, 94, 99];

fn go<H: Host>(p: &Plan, out: &mut Outcome) {
    if p.tight != 0 && p.tight < 2500 {
        out.invalid = true;
        return;
    }
    new_ctx(&[]);
    sim().fs.put("good", b"4242 note\n\\ comment\n");
    // What the lines do when they are whole.
    let mut refs: [Option<Vec<(Vec<(i64, Vec<i64>)>, bool)>>; 2] = [None, None];
    for m in 0..2 {
        let stepped = m == 1;
        if !p.rounds.iter().any(|r| r.stepped == stepped) {
            continue;
        }
        let t = compose(p, stepped);
        let mut vm = H::make();
        prelude(&mut *vm, p);
        let eval = vm.find("evaluate-input").unwrap_or(0);
        let mut v = Vec::new();
        for l in split(&t.bytes) {
            ev().clear();
            let (err, endless) = feed(&mut *vm, &l, stepped, eval);
            let skip = l.split_whitespace().any(|w| w == "\\\\");
            v.push((std::mem::take(ev()), err.is_none() && !endless && !skip));
            if err.is_some() || endless || skip {
                break;
            }
        }
        sut(|| drop(vm));
        refs[m] = Some(v);
    }
    let mut vm = H::make();
    prelude(&mut *vm, p);
    let eval = vm.find("evaluate-input").unwrap_or(0);
    let clean = vm.find("clean").unwrap_or(0);
    let decimal = vm.find("decimal").unwrap_or(0);
    let size = (vm.wordlist().len(), vm.data_space().here());
    let mut before = None;
    let mut h = Fnv::new();
    let mut nontrivial = 0;
    for (rn, r) in p.rounds.iter().enumerate() {
        let t = compose(p, r.stepped);
        let (b, bad) = damage(&t, &r.damage);
        let stepped = r.stepped || b != t.bytes && waits(&b);
        let desc = |d: String| format!("round {}: {}; text {:?}", rn, d, String::from_utf8_lossy(if b.len() > 1500 { &b[..1500] } else { &b }));
        if std::env::var_os("RTSIM_VERBOSE").is_some() {
            eprintln!("{}", desc("given".into()));
        }
        ev().clear();
        let mut endless = false;
        let mut errs = 0;
        let mut bad_reported = false;
        let mut first = None;
        let lead = if r.feed % 4 == 3 { 1 } else { 0 };
        match r.feed % 4 {
            0 => {
                let mut at = 0;
                // Lossy text has other lengths.
                for (l, raw) in split(&b).iter().zip(b.split(|&c| c == b'\n')) {
                    let (err, e) = feed(&mut *vm, l, stepped, eval);
                    if let Some(x) = bad {
                        if at <= x && x <= at + raw.len() && err.is_some() {
                            bad_reported = true;
                        }
                    }
                    at += raw.len() + 1;
                    if err.is_some() || e {
                        errs += 1;
                        first = first.or(err);
                        sut(|| vm.state().instruction_pointer = 0);
                        recover(&mut *vm);
                    }
                    if e {
                        endless = true;
                        break;
                    }
                }
            }
            f => {
                let s = sim();
                s.chunks_read = r.chunks.clone();
                let text = match f {
                    1 => {
                        s.fs.put("torn", &b);
                        "include torn".to_string()
                    }
                    2 => String::from_utf8_lossy(&b).into_owned(),
                    _ => {
                        s.fs.put("torn", &b);
                        s.fs.put("outer", b"1 note\n include torn\n");
                        "include outer".to_string()
                    }
                };
                let (err, e) = feed(&mut *vm, &text, stepped, eval);
                sim().chunks_read.clear();
                if bad.is_some() && err.is_some() {
                    bad_reported = true;
                }
                endless = e;
                if err.is_some() {
                    errs += 1;
                    first = err;
                }
            }
        }
        let got = std::mem::take(ev());
        // Lines before the first damaged byte.
        let rf = refs[r.stepped as usize].as_ref().unwrap();
        if r.feed % 4 != 2 && p.tight == 0 {
            let same = t.bytes.iter().zip(b.iter()).take_while(|(a, b)| a == b).count();
            let mut want: Vec<(i64, Vec<i64>)> = Vec::new();
            if lead == 1 {
                want.push((1, vec![]));
            }
            let mut at = 0;
            let mut whole = true;
            for (l, (notes, ok)) in t.bytes.split(|&c| c == b'\n').zip(rf.iter()) {
                let end = at + l.len();
                if end > same || !(b.len() == end || b[end] == b'\n') {
                    whole = false;
                    break;
                }
                want.extend(notes.iter().cloned());
                if !ok {
                    whole = false;
                    break;
                }
                at = end + 1;
            }
            if rf.len() < t.bytes.split(|&c| c == b'\n').count() {
                whole = false;
            }
            if got.len() < want.len() || got[..want.len()] != want[..] {
                let n = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return out.fail("before-damage", desc(format!("note {} is {:?} instead of {:?} (error {:?})", n, got.get(n), want.get(n), first)));
            }
            if whole && b == t.bytes && (errs > 0 || got.len() != want.len()) {
                return out.fail("whole-text", desc(format!("undamaged text: error {:?}, {} notes instead of {}", first, got.len(), want.len())));
            }
            if let (Some(x), false) = (bad, bad_reported) {
                // Reached only if everything before it is accepted.
                let n = b[..x].iter().filter(|&&c| c == b'\n').count();
                if rf.len() > n && rf[..n].iter().all(|r| r.1) && rf[n].1 {
                    return out.fail("no-word-accepted", desc(format!("no error at the damaged word at byte {}", x)));
                }
            }
        }
        if vm.current_task() != 0 && !endless {
            return out.fail("operator-lost", desc(format!("task {} is current", vm.current_task() + 1)));
        }
        if errs > 0 {
            nontrivial += 1;
        }
        h.u64(first.unwrap_or(0) as u64);
        h.u64(got.len() as u64);
        h.u64(r.feed as u64 | (r.stepped as u64) << 8 | (endless as u64) << 9);
        let mut st = Fnv::new();
        st.u64(first.unwrap_or(0) as u64);
        st.u64(vm.state().is_compiling as u64 | (r.feed as u64) << 1);
        st.u64(got.len() as u64);
        st.u64(vm.wordlist().len() as u64);
        out.states.push(st.0);
        out.count(&format!("feed {}", ["lines", "file", "one source", "nested file"][r.feed as usize % 4]), 1);
        if endless {
            // It was stopped anywhere, which no host does.
            out.count("endless when damaged", 1);
            break;
        }
        if errs > 0 {
            out.count("reported", 1);
        } else {
            out.count("interpreted", 1);
        }
        // What a host does, and then everything as before.
        sut(|| vm.state().instruction_pointer = 0);
        recover(&mut *vm);
        sut(|| {
            vm.execute_word(decimal);
            vm.run();
            vm.execute_word(clean);
            vm.run();
        });
        if let Some(e) = error_of(&mut *vm) {
            return out.fail("unusable", desc(format!("error {} from the marker afterwards", e)));
        }
        let depth = (vm.s_stack().len, vm.f_stack().len, vm.r_stack().len, vm.c_stack().len);
        if depth != (0, 0, 0, 0) {
            return out.fail("unusable", desc(format!("stack depths {:?} afterwards", depth)));
        }
        // The markers forget themselves, so make them anew.
        load(&mut *vm, "marker clean\n: last-word ;");
        let now = (vm.wordlist().len(), vm.data_space().here());
        if now != size {
            return out.fail("unusable", desc(format!("(words, here) {:?} instead of {:?} afterwards", now, size)));
        }
        ev().clear();
        load(&mut *vm, "ticks @ note");
        load(&mut *vm, SANE);
        let pending = vm.output_buffer().clone().unwrap_or_default();
        load(&mut *vm, "ticks @ note");
        let got: Vec<i64> = std::mem::take(ev()).into_iter().map(|e| e.0).collect();
        let (t0, t1) = (got[0], got[got.len() - 1]);
        if got[1..got.len() - 1] != SANE_NOTES[..] {
            return out.fail("unusable", desc(format!("results {:?} instead of {:?} afterwards", &got[1..got.len() - 1], SANE_NOTES)));
        }
        if t1 - t0 != 2 {
            return out.fail("unusable", desc(format!("the background task had {} turns instead of 2 afterwards", t1 - t0)));
        }
        if !pending.as_bytes().ends_with(b"ok") {
            return out.fail("unusable", desc(format!("pending output {:?} afterwards", pending)));
        }
        if vm.source_id() != 0 || !sim().fs.open.is_empty() {
            return out.fail("unusable", desc(format!("source-id {} and {} open files afterwards", vm.source_id(), sim().fs.open.len())));
        }
        let full = vm.s_stack().len != 0;
        if full {
            return out.fail("unusable", desc("data is left on the stack afterwards".into()));
        }
        let c = vm.find("clean").unwrap_or(0);
        sut(|| {
            vm.execute_word(c);
            vm.run();
        });
        load(&mut *vm, "marker clean\n: last-word ;");
        if let Some(b) = vm.output_buffer().as_mut() {
            b.clear();
        }
        let words = (vm.wordlist().len(), vm.data_space().here());
        if *before.get_or_insert(words) != words || words != size {
            return out.fail("unusable", desc(format!("(words, here) {:?} instead of {:?} after the marker", words, size)));
        }
        sim().evn(first.unwrap_or(0));
    }
    sut(|| drop(vm));
    out.sched = h.0;
    out.count("rounds", p.rounds.len() as u64);
    out.count("damages", p.rounds.iter().map(|r| r.damage.len() as u64).sum());
    out.count(&format!("host {}", H::NAME), 1);
    out.nontrivial = nontrivial > 0;
}

pub struct C15;
impl Check for C15 {
    type Plan = Plan;
    const ID: &'static str = "C15";
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 6_000_000;
    const RULE: &'static str = "rounds of valid program text over all kinds of words, cut off, overwritten, lost, repeated, moved or with words that are no words, given as lines, as one source, as a file read in fragments or as a nested file, on one machine; the effects of the lines before the damage, the report of no-words, and the work of the machine after each round are predicted; non-trivial with a reported error; distinct by results and number of effects per round";
    const REAL: &'static [&'static str] = &["core.fth", "src/core.rs", "src/parser.rs", "src/output.rs", "src/float.rs", "src/units.rs", "src/tools.rs", "src/loader.rs", "src/memory.rs", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
    const STUB: &'static [&'static str] = &["disk and descriptors", "clock", "terminal device"];
    const STATE_MEASURE: &'static str = "hash of the error, the compilation state, the number of effects and of words after a round";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let mut lines = Vec::new();
        let odd = *r.pick(&[0u64, 5, 30]);
        for _ in 0..1 + r.us(if th { 14 } else { 8 }) {
            let mut l = Vec::new();
            for _ in 0..1 + r.us(3) {
                l.push(match r.us(10) {
                    0..=4 => format!("!{}", r.pick(PLAIN)),
                    5 | 6 => format!("*{}", r.pick(LOOPS)),
                    _ => {
                        // The last ones are unfinished.
                        let n = if r.pct(odd) { OTHER.len() } else { OTHER.len() - 11 };
                        OTHER[r.us(n)].to_string()
                    }
                });
            }
            lines.push(l);
        }
        let rounds = (0..1 + r.us(4))
            .map(|_| {
                let mut damage = Vec::new();
                let w = |r: &mut Rng| r.next() as u32;
                for _ in 0..r.weighted(&[1, 10, 4, 2]) {
                    damage.push(match r.weighted(&[6, 4, 4, 4, 2, 2, 4]) {
                        0 => D::Cut(w(r)),
                        1 => D::Put(w(r), r.us(BYTES.len()) as u32),
                        2 => D::Insert(w(r), r.us(BYTES.len()) as u32),
                        3 => D::Lose(w(r), if r.pct(70) { 1 + r.us(8) } else { r.us(300) } as u32),
                        4 => {
                            let len = if r.pct(60) { 4 } else { 100 };
                            D::Repeat(w(r), r.us(len) as u32, if r.pct(70) { 1 + r.us(3) } else { r.us(3000) } as u32)
                        }
                        5 => D::Copy(w(r), r.us(60) as u32, w(r)),
                        _ => D::Bad(w(r), r.us(12) as u32, r.us(BADS.len()) as u32),
                    });
                }
                let chunks = if r.pct(50) { vec![] } else { (0..1 + r.us(3)).map(|_| *r.pick(&[0u32, 1, 2, 3, 7, 20, 100])).collect() };
                Round { feed: r.weighted(&[4, 4, 1, 1]) as u8, stepped: r.pct(50), damage, chunks }
            })
            .collect();
        Plan { host: r.weighted(&[6, 3, 1]) as u8, handler: r.us(3) as u8, tight: if r.pct(10) { 2500 + r.us(1500) as u32 } else { 0 }, style: r.us(4) as u8, lines, rounds }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        crate::with_host!(p.host, go(p, out))
    }
}
