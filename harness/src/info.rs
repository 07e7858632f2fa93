//! The overview of the algorithms, on terminals of every width (compare verus/info_fns.vrs).
use crate::conf::scratch;
use crate::spec::*;
use crate::util::*;
use mutagenyx_lib::mutation::{all_algorithm_descriptions, MutationType};
use serde_json::json;
use std::io::Read;
use std::os::fd::{FromRawFd, IntoRawFd};
use std::path::Path;
use std::str::FromStr;

extern "C" {
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
    fn ioctl(fd: i32, req: u64, arg: *const u16) -> i32;
}
/// a terminal of the given width: the side of the reader and the side of the program
fn terminal(cols: u16) -> Option<(std::fs::File, std::fs::File)> {
    unsafe {
        let m = posix_openpt(0o2 | 0o400);
        if m < 0 || grantpt(m) != 0 || unlockpt(m) != 0 { return None; }
        let mut b = [0u8; 128];
        if ptsname_r(m, b.as_mut_ptr(), 128) != 0 { return None; }
        let n = b.iter().position(|c| *c == 0)?;
        let s = std::fs::OpenOptions::new().read(true).write(true).open(std::str::from_utf8(&b[..n]).ok()?).ok()?.into_raw_fd();
        let size = [24u16, cols, 0, 0];
        if ioctl(s, 0x5414, size.as_ptr()) != 0 { return None; }
        Some((std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s)))
    }
}
fn run(cols: Option<u16>, args: &[&str]) -> Option<(String, bool)> {
    let mut c = std::process::Command::new(std::env::var("VERIF_CLI").ok()?);
    c.args(args).current_dir(scratch()).env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let mut kid;
    let mut rd: Box<dyn Read + Send> = match cols {
        None => {
            kid = c.stdout(std::process::Stdio::piped()).spawn().ok()?;
            Box::new(kid.stdout.take()?)
        }
        Some(n) => {
            let (m, s) = terminal(n)?;
            kid = c.stdout(std::process::Stdio::from(s)).spawn().ok()?;
            drop(c);
            Box::new(m)
        }
    };
    let h = std::thread::spawn(move || {
        let mut o = vec![];
        let mut b = [0u8; 65536];
        loop { match rd.read(&mut b) { Ok(0) | Err(_) => return o, Ok(k) => { o.extend_from_slice(&b[..k]); if o.len() > 10_000_000 { return o; } } } }
    });
    let t0 = std::time::Instant::now();
    let ok = loop {
        if let Some(s) = kid.try_wait().ok()? { break s.success(); }
        if t0.elapsed().as_secs() > 30 { let _ = kid.kill(); let _ = kid.wait(); break false; }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    Some((String::from_utf8_lossy(&h.join().ok()?).replace('\r', ""), ok))
}
fn words(t: &str) -> Vec<String> {
    t.split_whitespace().filter(|w| !w.chars().all(|c| c == '-')).map(String::from).collect()
}
pub fn check(cx: &mut Cx) {
    if !cx.wants(&["C21"]) || std::env::var("VERIF_CLI").map_or(true, |c| c.is_empty() || !Path::new(&c).exists()) { return; }
    let _ = std::fs::create_dir_all(scratch());
    let mut names: Vec<&str> = GENERIC.iter().chain(SOLONLY).copied().collect();
    names.sort();
    let table = all_algorithm_descriptions();
    let wide = names.iter().map(|n| n.len()).max().unwrap();
    let mut sizes: Vec<Option<u16>> = vec![None, Some(0), Some(1), Some(2), Some(65535)];
    sizes.extend((3..if cx.thorough { 300 } else { 120 }).step_by(if cx.thorough { 1 } else { 6 }).map(Some));
    sizes.extend((wide as u16 - 2..wide as u16 + 4).map(Some));
    for cols in sizes {
        for how in ["--list", "--describe"] {
            let args = ["algorithms", how];
            let input = json!({"arguments": args, "columns of the terminal": cols});
            let Some((out, ok)) = run(cols, &args) else { continue };
            cx.case("algorithms", &input);
            if !ok { cx.fail("C21", "algorithms", &format!("the command failed after {:?}", out.lines().last()), input); continue; }
            let mut want: Vec<String> = vec![];
            for n in &names {
                let Some(d) = MutationType::from_str(n).ok().and_then(|t| table.get(&t)) else { cx.fail("C21", "algorithms", &format!("{} has no description", n), input.clone()); continue };
                want.push(n.to_string());
                want.extend(words(d.summary));
                if how == "--describe" {
                    want.extend(words(d.extra_details));
                    if !d.operators.is_empty() { want.push("Operators:".into()); want.extend(words(&format!("{:?}", d.operators))); }
                    if !d.examples.is_empty() { want.push("Examples:".into()); want.extend(words(d.examples)); }
                }
            }
            let got = words(&out);
            if got != want {
                let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
                cx.fail("C21", "algorithms", &format!("word {} is {:?} instead of {:?}", i, got.get(i), want.get(i)), input.clone());
            }
            // every algorithm starts a line, its texts stand beside it in one column
            if cols.map_or(true, |c| c as usize > wide + 30) && got == want {
                let mut seen = 0;
                for l in out.lines().filter(|l| !l.trim().is_empty()) {
                    if !l.starts_with(' ') {
                        let (a, b) = (l.split_whitespace().next().unwrap(), l.split_whitespace().nth(1).unwrap_or(""));
                        if names.get(seen) != Some(&a) || l[a.len()..].find(b).map(|k| k + a.len()) != Some(wide + 1) { cx.fail("C21", "algorithms", &format!("line {:?}", l), input.clone()); }
                        seen += 1;
                    } else if l.len() - l.trim_start().len() != wide + 1 {
                        cx.fail("C21", "algorithms", &format!("the text in line {:?} is not in its column", l), input.clone());
                    }
                }
            }
        }
    }
}
