//! C22, C23: the command line tool
use super::streams::Dir;
use super::*;
use crate::data::{self, Data};
use crate::driver::{Chk, Obs, Prop};
use crate::opts::{td_header, td_image, LzssO, LzwO};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};

const METHODS: [&str; 4] = ["lzw", "lzhuf-port", "lzss_huff", "td0"];
fn lib(method: u8) -> Method {
    match METHODS[method as usize % 4] {
        "lzw" => Method::Lzw(LzwO::std()),
        "lzhuf-port" => Method::Port,
        "lzss_huff" => Method::Lzss(LzssO::std()),
        _ => Method::Td0([0; 8]),
    }
}
/// what the library makes of it, None if it fails
fn model(method: u8, expand: bool, input: &[u8]) -> Result<Option<(Vec<u8>, (u64, u64))>, String> {
    let m = lib(method);
    let mut w = Cap::new(vec![], 70 * input.len() + 64_000_000);
    let r = guard(&format!("{} panicked", m.name()), || if expand { m.expand(&mut Cursor::new(input), &mut w) } else { m.compress(&mut Cursor::new(input), &mut w) })?;
    Ok(r.ok().map(|sizes| (w.c.into_inner(), sizes)))
}
pub struct Run {
    pub code: Option<i32>,
    pub err: String,
    /// the numbers in the last line of what it says
    pub numbers: Vec<u64>,
}
/// how the tool is run
#[derive(Default)]
struct Env<'a> {
    /// path to the tool for an unprivileged user
    nobody: Option<&'a str>,
    log: Option<&'a str>,
    /// files cannot get longer than so many blocks of 512 bytes, like on a full disk
    blocks: Option<u16>,
}
const NOBODY: u32 = 65534;
/// the tool where an unprivileged user can run it, if that is possible here
fn for_nobody() -> Option<&'static str> {
    static S: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let base = std::env::var("RCVERIF_SCRATCH").ok()?;
        let p = Path::new(&base).join("tool");
        std::fs::copy(std::env::var("RCVERIF_BIN").ok()?, &p).ok()?;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).ok()?;
        let bin = p.to_str()?.to_string();
        let r = tool(Path::new("/"), &["--version"], b"", &Env { nobody: Some(&bin), ..Default::default() }).ok()?;
        (r.code == Some(0)).then_some(bin)
    })
    .as_deref()
}
fn tool(dir: &Path, args: &[&str], stdin: &[u8], env: &Env) -> std::io::Result<Run> {
    let bin = env.nobody.map(|x| x.to_string()).unwrap_or_else(|| std::env::var("RCVERIF_BIN").expect("RCVERIF_BIN is the tool"));
    let mut c = Command::new("/bin/sh");
    if env.nobody.is_some() {
        c.uid(NOBODY).gid(NOBODY);
    }
    // a run that does not come to an end, or writes without end, is ended by a signal
    let limit = match env.blocks {
        Some(n) => format!("trap '' XFSZ; ulimit -f {n}"),
        None => "ulimit -f 2097152".to_string(),
    };
    if let Some(x) = env.log {
        c.env("RUST_LOG", x);
    } else {
        c.env_remove("RUST_LOG");
    }
    let mut p = c
        .args(["-c", &format!("ulimit -t 60; {limit}; exec \"$0\" \"$@\""), &bin])
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()?;
    // it need not read the answer
    let _ = p.stdin.take().unwrap().write_all(stdin);
    let o = p.wait_with_output().expect("wait for the tool");
    let said = [&o.stdout[..], &o.stderr[..]].concat();
    let said = String::from_utf8_lossy(&said);
    let last = said.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or("");
    let numbers = last.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
    Ok(Run { code: o.status.code(), err: said.chars().take(300).collect(), numbers })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    /// suitable for the command: data to compress, or a compressed stream
    Good { d: Data, h: [u8; 8] },
    /// compressed stream or image with damage
    Damaged { d: Data, h: [u8; 8], muts: Vec<super::robust::Mut> },
    /// any bytes
    Raw(Data),
    Missing,
    /// the path is a directory
    Folder,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CliCase {
    pub method: u8,
    /// use a name that is not a method
    pub unknown: Option<String>,
    pub expand: bool,
    pub input: Input,
    pub pre: Option<Data>,
    /// way the arguments are written
    pub form: u8,
    /// names of the files
    pub names: u8,
    /// what is logged
    pub log: u8,
    /// the disk is full after so many blocks of 512 bytes
    pub full: Option<u16>,
    /// the output path is a directory
    pub out_folder: bool,
}
const LOGS: [Option<&str>; 6] = [None, Some("trace"), Some("debug"), Some("retrocompressor=trace,info"), Some("error"), Some("no,such=level")];
/// those that begin with - only where the name is joined to the option
const NAMES: [(&str, &str); 14] = [
    ("in file", "out"),
    ("in", "out put"),
    ("sub/in.td0", "sub/out.td0"),
    ("./käse", "./sub/../brot.z"),
    ("y", "'\"$HOME*"),
    ("-in", "--output"),
    ("--", "-o"),
    ("in ", "out "),
    (" in", " out"),
    ("sub/in\n", "sub/out\t"),
    ("IN.TD0", "Out.Z"),
    ("a%20b\\c", "~,;%s{}[]?&"),
    ("sub//in", "./out"),
    ("compress", "out.tar.gz..."),
];
fn input_bytes(method: u8, expand: bool, i: &Input) -> Result<Option<Vec<u8>>, String> {
    let make = |d: &Data, h: &[u8; 8]| -> Result<Vec<u8>, String> {
        let m = match lib(method) {
            Method::Td0(_) => Method::Td0(*h),
            m => m,
        };
        let x = m.plain(d);
        Ok(if expand { comp(&m, &x)?.bytes } else { x })
    };
    Ok(match i {
        Input::Good { d, h } => Some(make(d, h)?),
        Input::Damaged { d, h, muts } => {
            let mut z = make(d, h)?;
            // the declared length of the port stays as it is
            let lo = if expand && method % 4 == 1 { 4 } else { 0 };
            for m in muts {
                super::robust::mutate(&mut z, m, lo);
            }
            Some(z)
        }
        Input::Raw(d) => {
            let mut z = d.bytes();
            if expand && method % 4 == 1 && z.len() >= 4 {
                z[2] = 0;
                z[3] = 0;
            }
            Some(z)
        }
        Input::Missing | Input::Folder => None,
    })
}
pub struct C22;
impl Prop for C22 {
    type Case = CliCase;
    const ID: &'static str = "C22";
    const RULE: &'static str = "case = method (or unknown name), direction, input (suitable, damaged, arbitrary, missing, a directory), output path new, existing (answered y) or a directory, way to write arguments and file names, log level, sometimes a full disk; the built tool runs in a scratch directory and is compared with the library; non-trivial = the operation has an input of at least 1 byte";
    const QUICK: u32 = 4000;
    const THOROUGH: u32 = 15;
    fn strategy(&self) -> BoxedStrategy<CliCase> {
        let d = || prop_oneof![40 => data::tiny(), 50 => data::small(), 10 => data::medium()];
        let input = prop_oneof![
            6 => (d(), td_header()).prop_map(|(d,h)| Input::Good{d,h}),
            3 => (d(), td_header(), super::robust::muts()).prop_map(|(d,h,muts)| Input::Damaged{d,h,muts}),
            1 => data::tiny().prop_map(Input::Raw),
            1 => Just(Input::Missing),
            1 => Just(Input::Folder),
        ];
        let unknown = prop_oneof![20 => Just(None), 1 => prop::sample::select(vec!["zip", "LZW", "lzhuf", "td0 ", "lzss-huff", ""]).prop_map(|s| Some(s.to_string()))];
        let way = (0u8..6, 0u8..NAMES.len() as u8, prop_oneof![2 => Just(0u8), 1 => 0u8..6], prop_oneof![5 => Just(None), 1 => (0u16..40).prop_map(Some)], prop::bool::weighted(0.03));
        (0u8..4, unknown, any::<bool>(), input, prop_oneof![2 => Just(None), 1 => data::data_small().prop_map(Some)], way)
            .prop_map(|(method, unknown, expand, input, pre, (form, names, log, full, out_folder))| CliCase { method, unknown, expand, input, pre, form, names, log, full, out_folder })
            .boxed()
    }
    fn fixed(&self) -> Vec<CliCase> {
        let base = || CliCase { method: 0, unknown: None, expand: false, input: Input::Missing, pre: None, form: 0, names: 0, log: 0, full: None, out_folder: false };
        let mut v = Vec::new();
        // a disk that gets full, everything logged, in all ways to write the arguments
        for method in 0..4u8 {
            for expand in [false, true] {
                for i in 0..42u8 {
                    let h = [0, 0, if i % 2 == 0 { 15 } else { 21 }, 0, 0, 0, 0, 0];
                    let d = Data(vec![data::Seg::Rand { n: 4000, seed: i as u64, alpha: 256, base: 0 }]);
                    let input = Input::Good { d, h };
                    let full = if i < 20 { Some(i as u16) } else { None };
                    v.push(CliCase { method, expand, input, form: i % 6, names: i % NAMES.len() as u8, log: i % 5, full, ..base() });
                }
                for (input, out_folder) in [(Input::Folder, false), (Input::Raw(Data::lit(b"abc")), true), (Input::Folder, true)] {
                    v.push(CliCase { method, expand, input, out_folder, ..base() });
                }
            }
        }
        for method in 0..3u8 {
            for expand in [false, true] {
                let h = [0; 8];
                v.push(CliCase { method, unknown: None, expand, input: Input::Good { d: data::huge(), h }, pre: None, ..base() });
            }
        }
        for method in 0..4u8 {
            for expand in [false, true] {
                for ver in [15u8, 21] {
                    let h = [0, 0, ver, 0, 0, 0, 0, 0];
                    for d in data::classics().into_iter().step_by(3) {
                        v.push(CliCase { method, unknown: None, expand, input: Input::Good { d, h }, pre: None, ..base() });
                    }
                }
                for input in [Input::Missing, Input::Raw(Data::lit(b"")), Input::Raw(Data::lit(b"xyzzy xyzzy xyzzy"))] {
                    for pre in [None, Some(Data::lit(b"old content"))] {
                        v.push(CliCase { method, unknown: None, expand, input: input.clone(), pre, form: 1, ..base() });
                    }
                }
                v.push(CliCase { method, unknown: Some("zip".into()), expand, input: Input::Raw(Data::lit(b"abc")), pre: None, ..base() });
            }
        }
        v
    }
    fn check(&self, c: &CliCase, obs: &mut Obs) -> Chk {
        let input = input_bytes(c.method, c.expand, &c.input)?;
        let dir = Dir::new();
        std::fs::create_dir(dir.0.join("sub")).expect("scratch");
        // a name that begins with - has to be joined to the option
        let joined = matches!(c.form % 6, 2..=4);
        let names = |n: usize| NAMES.iter().filter(|x| joined || !x.0.starts_with('-')).cycle().nth(n).expect("a name");
        let (name_in, name_out) = *names(c.names as usize);
        let (path_in, path_out) = (dir.0.join(name_in), dir.0.join(name_out));
        match &input {
            Some(b) => std::fs::write(&path_in, b).expect("scratch"),
            None if matches!(c.input, Input::Folder) => std::fs::create_dir(&path_in).expect("scratch"),
            None => {}
        }
        let pre = if c.out_folder { None } else { c.pre.as_ref().map(|d| d.bytes()) };
        if let Some(b) = &pre {
            std::fs::write(&path_out, b).expect("scratch");
        }
        if c.out_folder {
            std::fs::create_dir(&path_out).expect("scratch");
        }
        let name = c.unknown.clone().unwrap_or(METHODS[c.method as usize % 4].to_string());
        let cmd = if c.expand { "expand" } else { "compress" };
        let (abs_in, abs_out) = (path_in.to_str().expect("UTF-8"), path_out.to_str().expect("UTF-8"));
        let args: Vec<String> = match c.form % 6 {
            0 => vec![cmd.into(), "-m".into(), name.clone(), "-i".into(), name_in.into(), "-o".into(), name_out.into()],
            1 => vec![cmd.into(), "--output".into(), name_out.into(), "--input".into(), name_in.into(), "--method".into(), name.clone()],
            2 => vec![cmd.into(), format!("--input={name_in}"), format!("--method={name}"), format!("--output={name_out}")],
            3 => vec![cmd.into(), format!("-o{name_out}"), format!("-i{name_in}"), format!("-m{name}")],
            4 => vec![cmd.into(), format!("-m={name}"), format!("-i={name_in}"), format!("-o={name_out}")],
            _ => vec![cmd.into(), "-i".into(), abs_in.into(), "-o".into(), abs_out.into(), "-m".into(), name.clone()],
        };
        let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let mut want = match (&input, &c.unknown) {
            (Some(b), None) if !c.out_folder => model(c.method, c.expand, b)?,
            _ => None,
        };
        if let (Some(n), Some(w)) = (c.full, &want) {
            obs.label(format!("disk {}", if w.0.len() > n as usize * 512 { "full" } else { "nearly full" }));
            if w.0.len() > n as usize * 512 {
                want = None;
            }
        }
        let log = LOGS[c.log as usize % LOGS.len()];
        if log.is_some() {
            obs.label("with log");
        }
        let r = tool(&dir.0, &args, b"y\n", &Env { log, blocks: c.full, nobody: None }).expect("start the tool");
        obs.runs += 1;
        obs.nontrivial = input.as_ref().map_or(false, |b| !b.is_empty());
        let what = format!("{args:?}");
        let got = std::fs::read(&path_out).ok();
        obs.label(format!("{cmd} {name} {}", if want.is_some() { "succeeds" } else { "fails" }));
        if r.code.is_none() {
            return Err(format!("{what}: the tool was ended by a signal: {}", r.err));
        }
        match want {
            Some((w, sizes)) => {
                if r.code != Some(0) {
                    return Err(format!("{what}: exit status {:?} although the library succeeds: {}", r.code, r.err));
                }
                match got {
                    None => return Err(format!("{what}: success without an output file")),
                    Some(g) => same(&format!("{what}: output file against the library"), &g, &w, 0)?,
                }
                if !r.numbers.windows(2).any(|w| w == [sizes.0, sizes.1]) {
                    return Err(format!("{what}: the last line reports {:?}, the sizes are {sizes:?}: {}", r.numbers, r.err));
                }
            }
            None => {
                if r.code == Some(0) {
                    return Err(format!("{what}: exit status is success although the operation fails: {}", r.err));
                }
                if matches!(c.input, Input::Missing) && !c.out_folder && got != pre {
                    return Err(format!("{what}: the input is missing, but the output path was changed"));
                }
            }
        }
        if let Some(b) = &input {
            if std::fs::read(&path_in).ok().as_ref() != Some(b) {
                return Err(format!("{what}: the input file was changed"));
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmd {
    pub method: u8,
    pub expand: bool,
    pub from: u8,
    pub to: u8,
    pub answer: u8,
    /// name the output in another way
    #[serde(default)]
    pub alias: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    pub files: Vec<Option<Data>>,
    pub cmds: Vec<Cmd>,
    /// if not zero run as an unprivileged user: initial files with access rw-, -w- or r--, two bits each
    #[serde(default)]
    pub modes: u8,
}
const ANSWERS: [(&[u8], bool); 14] = [
    (b"y\n", true),
    (b"Y\n", true),
    (b"y", true),
    (b"Y", true),
    (b"n\n", false),
    (b"N\n", false),
    (b"", false),
    (b"\n", false),
    (b"yes\n", false),
    (b"YES\n", false),
    (b"yy\n", false),
    (b"no\n", false),
    (b"ny\n", false),
    (b"n\ny\n", false),
];
const PATHS: [&str; 4] = ["a", "b", "c.td0", "d"];
pub struct C23;
impl Prop for C23 {
    type Case = HistCase;
    const ID: &'static str = "C23";
    const RULE: &'static str = "case = initial files x history of up to 8 commands over 4 paths (methods, directions, answers, sometimes input and output the same file, the output named directly, by other paths, by a symbolic link or by a hard link; sometimes as an unprivileged user with files that only allow reading or only writing); after every command all files are compared with a model; non-trivial = an existing file was overwritten or an overwrite was declined";
    const QUICK: u32 = 1600;
    const THOROUGH: u32 = 15;
    fn strategy(&self) -> BoxedStrategy<HistCase> {
        let file = prop_oneof![
            2 => Just(None),
            8 => data::data_small().prop_map(Some),
            1 => (8000usize..60000, any::<u64>(), prop::sample::select(vec![2u16, 40, 256])).prop_map(|(n, seed, alpha)| Some(Data(vec![data::Seg::Rand { n, seed, alpha, base: 0 }]))),
            4 => (td_header(), data::data_small()).prop_map(|(h,d)| Some(Data(vec![data::Seg::Lit(td_image(&h, b"TD", &d.bytes()))]))),
        ];
        let cmd = (0u8..4, any::<bool>(), 0u8..4, 0u8..4, prop_oneof![3 => 0u8..4, 2 => 0u8..14], 0u8..6).prop_map(|(method, expand, from, to, answer, alias)| Cmd { method, expand, from, to, answer, alias });
        // a compression followed by its expansion is common
        let pair = (0u8..4, 0u8..4, 1u8..4, 1u8..4, 0u8..4, 0u8..14).prop_map(|(method, a, s, t, x, y)| {
            let b = (a + s) % 4;
            let c = if (b + t) % 4 == b { a } else { (b + t) % 4 };
            vec![Cmd { method, expand: false, from: a, to: b, answer: x, alias: 0 }, Cmd { method, expand: true, from: b, to: c, answer: y, alias: 0 }]
        });
        // conversion of a file in place, and back
        let place = (0u8..4, 0u8..4, 0u8..4, 0u8..4, 0u8..6).prop_map(|(method, a, x, y, alias)| vec![Cmd { method, expand: false, from: a, to: a, answer: x, alias }, Cmd { method, expand: true, from: a, to: a, answer: y, alias }]);
        let step = prop_oneof![2 => cmd.prop_map(|c| vec![c]), 3 => pair, 1 => place];
        (vec(file, 4), vec(step, 1..5), prop_oneof![4 => Just(0u8), 1 => any::<u8>()]).prop_map(|(files, steps, modes)| HistCase { files, cmds: steps.concat(), modes }).boxed()
    }
    fn fixed(&self) -> Vec<HistCase> {
        let mut v = Vec::new();
        for method in 0..4u8 {
            let img = |n| td_image(&[0, 0, if n % 2 == 0 { 15 } else { 21 }, 0, 0, 0, 0, 0], b"TD", &vec![b'q'; n]);
            for answer in 0..14u8 {
                for (n, old) in [(100usize, 5000usize), (3001, 2)] {
                    let f = |n: usize| Some(Data::lit(&if method == 3 { img(n) } else { vec![b'q'; n] }));
                    v.push(HistCase {
                        files: vec![f(n), Some(Data(vec![data::Seg::Rand { n: old, seed: 1, alpha: 256, base: 0 }])), Some(Data(vec![data::Seg::Rand { n: old, seed: 2, alpha: 256, base: 0 }])), None],
                        cmds: vec![Cmd { method, expand: false, from: 0, to: 1, answer, alias: 0 }, Cmd { method, expand: true, from: 1, to: 2, answer, alias: 0 }],
                        modes: 0,
                    });
                }
            }
            // over files that can be written but not read, and the other way round
            for answer in 0..14u8 {
                for mode in [1u8, 2] {
                    let f = Some(Data::lit(&if method == 3 { img(300) } else { vec![b'q'; 300] }));
                    let cmds = vec![Cmd { method, expand: false, from: 0, to: 1, answer, alias: 0 }];
                    v.push(HistCase { files: vec![f.clone(), f, None, None], cmds, modes: mode << 2 });
                }
            }
            // in place
            for alias in 0..6u8 {
                for n in [0usize, 100, 9000, 50000] {
                    for alpha in [3u16, 256] {
                        let mut x = Data(vec![data::Seg::Rand { n, seed: 1, alpha, base: 0 }]).bytes();
                        if method == 3 {
                            x = td_image(&[0, 0, if alpha == 3 { 15 } else { 21 }, 0, 0, 0, 0, 0], b"TD", &x);
                        }
                        let cmd = |expand| Cmd { method, expand, from: 1, to: 1, answer: 0, alias };
                        v.push(HistCase { files: vec![None, Some(Data(vec![data::Seg::Lit(x)])), None, None], cmds: vec![cmd(false), cmd(true)], modes: 0 });
                    }
                }
            }
        }
        v
    }
    fn check(&self, c: &HistCase, obs: &mut Obs) -> Chk {
        let dir = Dir::new();
        std::fs::create_dir(dir.0.join("sub")).expect("scratch");
        for p in PATHS {
            std::os::unix::fs::symlink(p, dir.0.join(format!("link-{p}"))).expect("scratch");
        }
        let mut files: BTreeMap<&str, Vec<u8>> = BTreeMap::new();
        let mut closed = [false; 4];
        let nobody = if c.modes == 0 { None } else { for_nobody() };
        if c.modes != 0 {
            obs.label(if nobody.is_some() { "unprivileged user" } else { "no unprivileged user possible" });
        }
        if nobody.is_some() {
            std::fs::set_permissions(&dir.0, std::fs::Permissions::from_mode(0o777)).expect("scratch");
        }
        for (i, f) in c.files.iter().enumerate().take(4) {
            if let Some(d) = f {
                let b = d.bytes();
                std::fs::write(dir.0.join(PATHS[i]), &b).expect("scratch");
                files.insert(PATHS[i], b);
                if nobody.is_some() {
                    let mode = [0o666, 0o222, 0o444, 0o666][(c.modes >> (2 * i) & 3) as usize];
                    closed[i] = mode == 0o444 || mode == 0o222;
                    std::fs::set_permissions(dir.0.join(PATHS[i]), std::fs::Permissions::from_mode(mode)).expect("scratch");
                }
            }
        }
        for (n, k) in c.cmds.iter().enumerate() {
            let (from, to) = (PATHS[k.from as usize % 4], PATHS[k.to as usize % 4]);
            // other names for the output
            let absolute = dir.0.join(to);
            let link = format!("link-{to}");
            let named = match k.alias {
                1 => format!("./{to}"),
                2 => absolute.to_str().expect("scratch is UTF-8").to_string(),
                3 => format!("sub/../{to}"),
                4 if files.contains_key(to) => link,
                5 if files.contains_key(to) => {
                    let hard = format!("hard-{to}");
                    std::fs::remove_file(dir.0.join(&hard)).ok();
                    std::fs::hard_link(dir.0.join(to), dir.0.join(&hard)).expect("scratch");
                    hard
                }
                _ => to.to_string(),
            };
            let (answer, consent) = ANSWERS[k.answer as usize % ANSWERS.len()];
            let name = METHODS[k.method as usize % 4];
            let cmd = if k.expand { "expand" } else { "compress" };
            // a port stream that declares much more than it has would be filled up
            if let (true, 1, Some(b)) = (k.expand, k.method % 4, files.get(from)) {
                if b.len() >= 4 && u32::from_le_bytes([b[0], b[1], b[2], b[3]]) > 2_000_000 {
                    obs.label("skipped: port with huge declared length");
                    continue;
                }
            }
            let exists = files.contains_key(to);
            let r = tool(&dir.0, &[cmd, "-m", name, "-i", from, "-o", &named], answer, &Env { nobody, ..Default::default() }).expect("start the tool");
            obs.runs += 1;
            let what = format!("command {n} ({cmd} -m {name} -i {from} -o {named}, answer {:?}, output {})", String::from_utf8_lossy(answer), if exists { "exists" } else { "is new" });
            let expected = match files.get(from) {
                Some(b) => model(k.method, k.expand, b)?.map(|x| x.0),
                None => None,
            };
            if from == to {
                obs.label("in place");
            }
            let mut resync = false;
            if exists && !consent {
                obs.nontrivial = true;
                obs.label("declined");
            } else if let (Some(_), true) = (&expected, r.code != Some(0) && (closed[k.from as usize % 4] || closed[k.to as usize % 4])) {
                // access was refused; nothing is changed
                obs.label("no access");
            } else if let Some(w) = expected {
                if exists {
                    obs.nontrivial = true;
                    obs.label(if files[to].len() > w.len() { "overwritten by shorter" } else { "overwritten" });
                } else {
                    obs.label("new file");
                }
                if r.code != Some(0) {
                    return Err(format!("{what}: exit status {:?}: {}", r.code, r.err));
                }
                files.insert(to, w);
            } else if files.contains_key(from) {
                // a failed conversion may leave anything in the output
                obs.label("failed conversion");
                resync = true;
            } else {
                obs.label("missing input");
            }
            if resync {
                match std::fs::read(dir.0.join(to)) {
                    Ok(b) => files.insert(to, b),
                    Err(_) => files.remove(to),
                };
            }
            for p in PATHS {
                let got = std::fs::read(dir.0.join(p)).ok();
                if got.as_ref() != files.get(p) {
                    return Err(format!(
                        "{what}: file {p} has {:?} bytes, expected {:?}{}",
                        got.as_ref().map(|x| x.len()),
                        files.get(p).map(|x| x.len()),
                        if p == to && exists && !consent { " (overwrite was declined)" } else { "" }
                    ));
                }
            }
        }
        Ok(())
    }
}
