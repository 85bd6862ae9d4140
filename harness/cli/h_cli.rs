//! The command line tool, with clap, on any text.
use super::rt::*;
use cubing::alg::Alg;
use shim_std::process::Termination;

/// Runs the tool; `end` gets its exit code and what it printed.
fn run(args: &[&str], input: Vec<u8>, end: impl FnOnce(i32, Vec<u8>) + 'static) {
    let w = shim_std::world();
    w.args = args.iter().map(|x| x.to_string()).collect();
    w.input = input;
    w.end = Some(Box::new(end));
    let c = format!("{:?}", alg_cli::main().report());
    let digits: String = c.chars().filter(|c| c.is_ascii_digit()).collect();
    shim_std::finish(digits.parse().unwrap())
}
fn any_text(max: usize) -> String {
    let b = any_bytes(max);
    for x in &b {
        assume(*x != 0);
    }
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// The tool on a text, given as an argument or on standard input.
fn on(cmd: &'static str, text: String, end: impl FnOnce(i32, Vec<u8>) + 'static) {
    if pick(2) == 0 {
        assume(!text.starts_with('-'));
        run(&["alg", cmd, &text], vec![], end)
    } else {
        run(&["alg", cmd, "--stdin"], text.into_bytes(), end)
    }
}
fn parse(text: String) {
    let want = text.parse::<Alg>().is_ok();
    on("parse", text, move |code, out| {
        check!(970 "`alg parse` succeeds exactly for algs", (code == 0) == want);
        check!(971 "`alg parse` prints nothing", out.is_empty());
        observe(code as u64);
        cover(1 + want as u64);
    })
}
fn invert(text: String) {
    let want = text.parse::<Alg>().ok().map(|a| a.invert().to_string() + "\n");
    on("invert", text, move |code, out| {
        check!(972 "`alg invert` succeeds exactly for algs", (code == 0) == want.is_some());
        check!(973 "`alg invert` prints the inverse and nothing else", same(&out, want.clone().unwrap_or_default().as_bytes()));
        observe(code as u64);
        observe_bytes(&out);
        cover(1 + want.is_some() as u64);
    })
}
const SHAPES: [(&str, &str); 6] = [("R U", ""), ("[R: ", "]2"), ("", "\n(U D)'"), ("(1, ", ") /"), ("2-3R", " // x"), (" ", " ")];
fn shaped(max: usize) -> String {
    let (a, b) = SHAPES[pick(SHAPES.len())];
    format!("{}{}{}", a, any_text(max), b)
}

harnesses! {
    fn h_cli_parse() {
        parse(any_text(if thorough() { 5 } else { 4 }))
    }
    fn h_cli_parse_shaped() {
        parse(shaped(if thorough() { 4 } else { 3 }))
    }
    fn h_cli_invert() {
        invert(any_text(if thorough() { 5 } else { 4 }))
    }
    fn h_cli_invert_shaped() {
        invert(shaped(if thorough() { 4 } else { 3 }))
    }
    // long texts
    fn h_cli_long() {
        let part = ["R U2' ", "(3, -4) / ", "[A: B]2\n", "// words é\n", "\u{2192}"][pick(5)];
        let mut t = ["", "x", "//"][if part.len() == 3 { pick(3) } else { 0 }].to_owned() + &part.repeat([50, 300, 2000][pick(if thorough() { 3 } else { 2 })]);
        let c = any_u8();
        assume(c < 128);
        t.push(c as char);
        if pick(2) == 0 {
            parse(t)
        } else {
            invert(t)
        }
    }
    // not called as documented
    fn h_cli_usage() {
        let args: &[&str] = [
            &["alg"][..],
            &["alg", "parse"],
            &["alg", "invert"],
            &["alg", "parse", "R", "--stdin"],
            &["alg", "invert", "--stdin", "R"],
            &["alg", "parse", "R", "U"],
            &["alg", "twist", "R"],
            &["alg", "R"],
            &["alg", "completions"],
            &["alg", "completions", "lua"],
            &["alg", "invert", "--in", "R"],
        ][pick(11)];
        run(args, b"R".to_vec(), |code, out| {
            check!(974 "wrong usage is an error", code != 0);
            check!(975 "wrong usage prints nothing", out.is_empty());
            observe(code as u64);
            cover(1);
        })
    }
    // scripts for shells
    fn h_cli_completions() {
        let shell = ["bash", "elvish", "fish", "powershell", "zsh"][pick(5)];
        run(&["alg", "completions", shell], vec![], |code, out| {
            check!(976 "`alg completions` succeeds for every shell", code == 0);
            check!(977 "`alg completions` names the subcommands", [&b"parse"[..], b"invert", b"stdin"].iter().all(|w| out.windows(w.len()).any(|x| x == *w)));
            observe(code as u64);
            observe(out.len() as u64);
            cover(1);
        })
    }
}
