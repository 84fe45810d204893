//! Registry routing (C21) and the command helpers (C23).
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;
use std::sync::OnceLock;

use futures_util::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use regex::Regex;
use serde::{Deserialize, Serialize};
use stream_download::process::{Command, CommandBuilder, FfmpegConvertAudioCommand, ProcessStream, ProcessStreamParams, SpawnCommand, YtDlpCommand};
use stream_download::registry::{Input, Registry, RegistryEntry, Rule, Source};
use stream_download::source::SourceStream;
use url::Url;

use crate::runner::{AnyCheck, Check, Outcome};
use crate::sim::scratch;

pub const ALL: &[&dyn AnyCheck] = &[&C21, &C23];

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pat {
    Is(String),
    /// index into REGEXES
    Re(u8),
}

const REGEXES: &[&str] = &["^a", "b$", "http", "^https?$", "example", ".", "^$", "a|x", "\\.com$", "(?i)YTSEARCH"];

impl Pat {
    fn matches(&self, s: &str) -> bool {
        match self {
            Pat::Is(t) => t == s,
            Pat::Re(i) => Regex::new(REGEXES[usize::from(*i) % REGEXES.len()]).unwrap().is_match(s),
        }
    }
    fn apply<R>(&self, s: impl FnOnce(&str) -> R, r: impl FnOnce(Regex) -> R) -> R {
        match self {
            Pat::Is(t) => s(t),
            Pat::Re(i) => r(Regex::new(REGEXES[usize::from(*i) % REGEXES.len()]).unwrap()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RuleSpec {
    Prefix(String),
    Str(Pat),
    AnyString,
    AnyUrl,
    Scheme(Pat),
    AnyHttp,
    Domain(Pat),
    HttpDomain(Pat),
    Url(Pat, Pat),
}

impl RuleSpec {
    fn build(&self) -> Rule {
        match self {
            Self::Prefix(p) => Rule::prefix(p),
            Self::Str(p) => p.apply(|s| Rule::string(s), |r| Rule::string(r)),
            Self::AnyString => Rule::any_string(),
            Self::AnyUrl => Rule::any_url(),
            Self::Scheme(p) => p.apply(|s| Rule::url_scheme(s), |r| Rule::url_scheme(r)),
            Self::AnyHttp => Rule::any_http(),
            Self::Domain(p) => p.apply(|s| Rule::url_domain(s), |r| Rule::url_domain(r)),
            Self::HttpDomain(p) => p.apply(|s| Rule::http_domain(s), |r| Rule::http_domain(r)),
            Self::Url(a, b) => match (a, b) {
                (Pat::Is(a), b) => b.apply(|s| Rule::url(a.as_str(), s), |r| Rule::url(a.as_str(), r)),
                (a, Pat::Is(b)) => a.apply(|_| unreachable!(), |r| Rule::url(r, b.as_str())),
                (a, b) => a.apply(
                    |_| unreachable!(),
                    |x| b.apply(|_| unreachable!(), |y| Rule::url(x, y)),
                ),
            },
        }
    }
    fn url(&self, u: &Url) -> bool {
        let http = || matches!(u.scheme(), "http" | "https");
        let domain = |p: &Pat| u.domain().is_some_and(|d| p.matches(d));
        match self {
            Self::Prefix(_) | Self::Str(_) | Self::AnyString => false,
            Self::AnyUrl => true,
            Self::Scheme(p) => p.matches(u.scheme()),
            Self::AnyHttp => http(),
            Self::Domain(p) => domain(p),
            Self::HttpDomain(p) => http() && domain(p),
            Self::Url(a, b) => a.matches(u.scheme()) && domain(b),
        }
    }
    fn string(&self, s: &str) -> bool {
        match self {
            Self::Str(p) => p.matches(s),
            Self::AnyString => true,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EntrySpec {
    priority: u32,
    rules: Vec<RuleSpec>,
    /// how often the handler yields before it returns
    yields: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum InputSpec {
    Raw(String),
    Parsed { prefix: Option<String>, source: String, force_string: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RegCase {
    entries: Vec<EntrySpec>,
    inputs: Vec<InputSpec>,
}

static C21: Check<RegCase> = Check {
    id: "C21",
    rule: "an input was routed while at least two entries matched it, or was handled by a prefix rule, or by an entry behind one that did not match",
    assumptions: &["regular expressions and URL parsing come from the same regex and url crates"],
    quick: 500_000,
    thorough: 15_000_000,
    strategy: || {
        let word = || {
            prop_oneof![
                3 => prop::sample::select(vec![
                    "a", "b", "ab", "abc", "x", "", "a:", "yt:", "yt://", "http://", "https://", "file:", "example.com", "a.com",
                    "http", "https", "ftp", "ytsearch", "é", " ", "http://a.com", "https://example.com", "a://b", "ytsearch:",
                ])
                .prop_map(String::from),
                1 => "[ab:/.x]{0,5}",
            ]
        };
        let text = || {
            prop_oneof![
                2 => word(),
                5 => (word(), word(), word()).prop_map(|(a, b, c)| format!("{a}{b}{c}")),
                2 => prop::sample::select(vec![
                    "http://a.com", "https://example.com/x?y#z", "ftp://b", "file:///a/b", "a:b", "data:text/plain,a",
                    "http://127.0.0.1/x", "HTTP://A.COM/../x", "https://[::1]:80/", "yt:https://example.com/v", "mailto:a@a.com",
                    "http://A.com:80", "http:a.com", "a b", "http://é.com/é", "http://", "//a.com",
                ])
                .prop_map(String::from),
            ]
        };
        let pat = || prop_oneof![2 => word().prop_map(Pat::Is), 1 => any::<u8>().prop_map(|i| Pat::Re(i % REGEXES.len() as u8))];
        let rule = prop_oneof![
            5 => word().prop_map(RuleSpec::Prefix),
            3 => pat().prop_map(RuleSpec::Str),
            1 => Just(RuleSpec::AnyString),
            1 => Just(RuleSpec::AnyUrl),
            2 => pat().prop_map(RuleSpec::Scheme),
            1 => Just(RuleSpec::AnyHttp),
            2 => pat().prop_map(RuleSpec::Domain),
            1 => pat().prop_map(RuleSpec::HttpDomain),
            2 => (pat(), pat()).prop_map(|(a, b)| RuleSpec::Url(a, b)),
        ];
        let prio = prop_oneof![6 => 0u32..4, 1 => any::<u32>(), 1 => Just(u32::MAX)];
        let entry = (prio, vec(rule, 0..5), prop_oneof![4 => Just(0u8), 1 => 1u8..4])
            .prop_map(|(priority, rules, yields)| EntrySpec { priority, rules, yields });
        let input = prop_oneof![
            4 => text().prop_map(InputSpec::Raw),
            2 => (prop::option::of(word()), text(), prop::bool::weighted(0.2))
                .prop_map(|(prefix, source, force_string)| InputSpec::Parsed { prefix, source, force_string }),
        ];
        // more entries than a small sort handles by insertion
        let entries = prop_oneof![5 => vec(entry.clone(), 0..6), 1 => vec(entry, 20..40)];
        (entries, vec(input, 1..5))
            .prop_map(|(entries, inputs)| RegCase { entries, inputs })
            .boxed()
    },
    run: c21,
    case_limit_s: 60,
    shards: 8,
};

struct Entry {
    id: usize,
    priority: u32,
    rules: Vec<Rule>,
    yields: u8,
    calls: std::sync::Arc<std::sync::Mutex<Vec<usize>>>,
}

#[async_trait::async_trait]
impl RegistryEntry<(usize, Input)> for Entry {
    fn priority(&self) -> u32 {
        self.priority
    }
    fn rules(&self) -> &[Rule] {
        &self.rules
    }
    async fn handler(&mut self, input: Input) -> (usize, Input) {
        self.calls.lock().unwrap().push(self.id);
        for _ in 0..self.yields {
            tokio::task::yield_now().await;
        }
        (self.id, input)
    }
}

fn source_of(s: &str) -> Source {
    Url::parse(s).map_or_else(|_| Source::String(s.to_string()), Source::Url)
}

/// Ids of the entries that match, in the order they are tried, with what each would be handed.
fn model(entries: &[EntrySpec], input: &InputSpec) -> Vec<(usize, Input, bool)> {
    let mut order: Vec<usize> = (0..entries.len()).collect();
    // insertion sort: trivially stable
    for i in 1..order.len() {
        let mut k = i;
        while k > 0 && entries[order[k - 1]].priority > entries[order[k]].priority {
            order.swap(k - 1, k);
            k -= 1;
        }
    }
    let mut found = vec![];
    for id in order {
        let e = &entries[id];
        let (whole, by_prefix) = match input {
            InputSpec::Raw(raw) => (
                Input { prefix: None, source: source_of(raw) },
                e.rules.iter().find_map(|r| match r {
                    RuleSpec::Prefix(p) => raw
                        .as_bytes()
                        .strip_prefix(p.as_bytes())
                        .map(|rest| Input { prefix: Some(p.clone()), source: source_of(std::str::from_utf8(rest).unwrap()) }),
                    _ => None,
                }),
            ),
            InputSpec::Parsed { prefix, source, force_string } => {
                let source = if *force_string { Source::String(source.clone()) } else { source_of(source) };
                let whole = Input { prefix: prefix.clone(), source };
                let hit = e.rules.iter().any(|r| matches!(r, RuleSpec::Prefix(p) if Some(p) == prefix.as_ref()));
                (whole.clone(), hit.then_some(whole))
            }
        };
        if let Some(i) = by_prefix {
            found.push((id, i, true));
        } else {
            let hit = e.rules.iter().any(|r| match &whole.source {
                Source::Url(u) => r.url(u),
                Source::String(s) => r.string(s),
            });
            if hit {
                found.push((id, whole, false));
            }
        }
    }
    found
}

fn c21(case: &RegCase) -> Outcome {
    let mut out = Outcome::default();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let calls = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let mut reg = Registry::new();
    for (id, e) in case.entries.iter().enumerate() {
        reg = reg.entry(Entry {
            id,
            priority: e.priority,
            rules: e.rules.iter().map(RuleSpec::build).collect(),
            yields: e.yields,
            calls: calls.clone(),
        });
    }
    for input in &case.inputs {
        let expected = model(&case.entries, input);
        calls.lock().unwrap().clear();
        let got = match input {
            InputSpec::Raw(s) => rt.block_on(reg.find_match(s.as_str())),
            InputSpec::Parsed { prefix, source, force_string } => {
                let source = if *force_string { Source::String(source.clone()) } else { Source::from(source.clone()) };
                rt.block_on(reg.find_match(Input { prefix: prefix.clone(), source }))
            }
        };
        let ran = calls.lock().unwrap().clone();
        let want = expected.first().map(|(id, i, _)| (*id, i.clone()));
        if got != want {
            out.problem(format!("{input:?}: routed to {got:?}, expected {want:?}"));
        }
        if ran != want.iter().map(|w| w.0).collect::<Vec<_>>() {
            out.problem(format!("{input:?}: the handlers {ran:?} ran"));
        }
        if let Some((id, i)) = &got {
            // back to the raw text; URLs are normalised
            let raw = i.clone().into_raw();
            let shown = i.to_string();
            let text = match &i.source {
                Source::Url(u) => u.as_str().to_string(),
                Source::String(s) => s.clone(),
            };
            let full = format!("{}{text}", i.prefix.as_deref().unwrap_or(""));
            if raw != full || shown != full || String::from(i.source.clone()) != text || i.source.to_string() != text {
                out.problem(format!("{i:?} converts back to {raw:?} / {shown:?}"));
            }
            if let InputSpec::Raw(s) = input
                && matches!(i.source, Source::String(_))
                && raw != *s
            {
                out.problem(format!("{s:?} converts back to {raw:?}"));
            }
            match &i.source {
                Source::Url(u) => {
                    if i.source.clone().try_into_url().as_ref() != Some(u) || i.source.clone().try_into_string().is_some() {
                        out.problem(format!("{i:?} does not convert to its URL"));
                    }
                }
                Source::String(s) => {
                    if i.source.clone().try_into_string().as_ref() != Some(s) || i.source.clone().try_into_url().is_some() {
                        out.problem(format!("{i:?} does not convert to its string"));
                    }
                }
            }
            if expected[0].2 {
                out.class("by prefix");
            } else if matches!(i.source, Source::Url(_)) {
                out.class("by URL rule");
            } else {
                out.class("by string rule");
            }
            if expected.len() > 1 {
                out.class("several entries match");
            }
            let first = (0..case.entries.len()).min_by_key(|k| (case.entries[*k].priority, *k));
            out.nontrivial |= expected.len() > 1 || expected[0].2 || first != Some(*id);
        } else {
            out.class("no entry matches");
        }
    }
    out
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Build {
    Arg(Vec<u8>),
    Args(Vec<Vec<u8>>),
    /// position modulo the number of arguments so far plus one
    Insert(u8, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CmdSpec {
    Generic { build: Vec<Build> },
    YtDlp { url: String, formats: Vec<String>, extract: Vec<bool>, custom_path: bool, via_from: bool },
    Ffmpeg { format: String, build: Vec<Build>, custom_path: bool, piped: bool },
}

static C23: Check<CmdSpec> = Check {
    id: "C23",
    rule: "the program was run with at least one argument that is empty, not ASCII, or contains whitespace, quotes or shell syntax, or with an option that the helper adds",
    assumptions: &["the program that is run is a stand-in that reports its arguments"],
    quick: 60_000,
    thorough: 1_500_000,
    strategy: || {
        let arg = || {
            prop_oneof![
                3 => "[a-z0-9=:-]{0,8}".prop_map(String::into_bytes),
                3 => prop::sample::select(vec![
                    "", " ", "a b", "$(touch x)", "`id`", "; echo x", "'", "\"", "\\", "*", "~", "-", "--", "-f", "-x", "-i", "\n", "é",
                    "$HOME", "a;b", "&&", "|", ">x", "#", "pipe:", "\t", "-o",
                ])
                .prop_map(|s| s.as_bytes().to_vec()),
                1 => vec(1u8..=255, 0..12),
                1 => Just(vec![b'x'; 5000]),
            ]
        };
        let text = || {
            arg().prop_map(|v| String::from_utf8_lossy(&v).into_owned())
        };
        let build = || {
            vec(
                prop_oneof![
                    3 => arg().prop_map(Build::Arg),
                    1 => vec(arg(), 0..4).prop_map(Build::Args),
                    1 => (any::<u8>(), arg()).prop_map(|(i, a)| Build::Insert(i, a)),
                ],
                0..6,
            )
        };
        prop_oneof![
            2 => build().prop_map(|build| CmdSpec::Generic { build }),
            2 => (text(), vec(text(), 0..3), vec(any::<bool>(), 0..3), any::<bool>(), any::<bool>())
                .prop_map(|(url, formats, extract, custom_path, via_from)| CmdSpec::YtDlp { url, formats, extract, custom_path, via_from }),
            2 => (text(), build(), any::<bool>(), any::<bool>())
                .prop_map(|(format, build, custom_path, piped)| CmdSpec::Ffmpeg { format, build, custom_path, piped }),
        ]
        .boxed()
    },
    run: c23,
    case_limit_s: 120,
    shards: 8,
};

/// Reports the arguments, each followed by a NUL byte, then what standard input holds if asked to.
pub fn argdump_main() -> Option<i32> {
    let name = std::env::args_os().next()?;
    let base = PathBuf::from(name).file_name()?.to_os_string();
    if !base.as_bytes().ends_with(b"-argdump") && base != "yt-dlp" && base != "ffmpeg" {
        return None;
    }
    use std::io::{Read, Write};
    let mut out = vec![];
    for a in std::env::args_os() {
        out.extend_from_slice(a.as_bytes());
        out.push(0);
    }
    if base == "ffmpeg" || base.as_bytes().starts_with(b"ffmpeg") {
        let mut buf = vec![];
        let _ = std::io::stdin().read_to_end(&mut buf);
        out.extend_from_slice(&buf);
    }
    let _ = std::io::stdout().write_all(&out);
    Some(0)
}

/// Directory with the stand-in under the names the helpers use; it comes first in PATH.
pub fn stand_ins() -> &'static PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let dir = scratch().join("bin dir");
        std::fs::create_dir_all(&dir).expect("stand-in directory");
        let exe = std::env::current_exe().expect("own path");
        for n in ["yt-dlp", "ffmpeg", "generic-argdump", "ytdlp-argdump", "ffmpeg-argdump"] {
            std::os::unix::fs::symlink(&exe, dir.join(n)).expect("stand-in");
        }
        dir
    })
}

fn os(v: &[u8]) -> OsString {
    OsString::from_vec(v.to_vec())
}

fn c23(case: &CmdSpec) -> Outcome {
    let mut out = Outcome::default();
    let dir = stand_ins();
    let program = |custom: bool, name: &str, other: &str| {
        if custom { dir.join(other).into_os_string() } else { OsString::from(name) }
    };
    let (result, expected): (Result<Vec<u8>, String>, Vec<u8>) = match case {
        CmdSpec::Generic { build } => {
            let prog = program(true, "", "generic-argdump");
            let mut cmd = Command::new(prog.clone());
            let mut args: Vec<OsString> = vec![];
            for b in build {
                match b {
                    Build::Arg(a) => {
                        cmd = cmd.arg(os(a));
                        args.push(os(a));
                    }
                    Build::Args(v) => {
                        cmd = cmd.args(v.iter().map(|a| os(a)));
                        args.extend(v.iter().map(|a| os(a)));
                    }
                    Build::Insert(i, a) => {
                        let i = usize::from(*i) % (args.len() + 1);
                        cmd = cmd.insert_arg(i, os(a));
                        args.insert(i, os(a));
                    }
                }
            }
            (run(cmd), dump(&prog, &args))
        }
        CmdSpec::YtDlp { url, formats, extract, custom_path, via_from } => {
            let prog = program(*custom_path, "yt-dlp", "ytdlp-argdump");
            let mut b = YtDlpCommand::new(url.clone());
            if *custom_path {
                b = b.yt_dlp_path(prog.clone());
            }
            for f in formats {
                b = b.format(f.clone());
            }
            for x in extract {
                b = b.extract_audio(*x);
            }
            let res = if *via_from { run(Command::from(b)) } else { run(b) };
            // the order of the options is free, their values and the URL are not
            let got = match &res {
                Ok(r) => r.clone(),
                Err(e) => return Outcome::fail(format!("running the command failed: {e}")),
            };
            let args = split(&got);
            let text = |a: &OsString| a.to_string_lossy().into_owned();
            if args.first() != Some(&prog) {
                out.problem(format!("{:?} was run instead of {prog:?}", args.first()));
            }
            let mut rest: Vec<OsString> = args[1.min(args.len())..].to_vec();
            // values first, so that values that look like options are not taken for them
            if args.get(1).map(text).as_deref() != Some(url.as_str()) {
                out.problem(format!("the first argument is {:?} instead of the URL {url:?}", args.get(1)));
                return out;
            }
            rest.remove(0);
            let format = formats.last();
            if let Some(f) = format {
                match rest.windows(2).rposition(|w| w[0] == "-f" && w[1] == f.as_str()) {
                    Some(i) => {
                        rest.drain(i..i + 2);
                    }
                    None => out.problem(format!("no -f {f:?} in {args:?}")),
                }
            }
            let on = extract.last().copied().unwrap_or(false);
            let n_x = rest.iter().filter(|a| *a == "-x" || *a == "--extract-audio").count();
            if n_x != usize::from(on) {
                out.problem(format!("audio extraction {on}, but {args:?}"));
            }
            rest.retain(|a| *a != "-x" && *a != "--extract-audio");
            match rest.windows(2).position(|w| (w[0] == "-o" || w[0] == "--output") && w[1] == "-") {
                Some(i) => {
                    rest.drain(i..i + 2);
                }
                None => out.problem(format!("the output does not go to standard output: {args:?}")),
            }
            // only options without a value may be left
            if rest.iter().any(|a| !a.as_bytes().starts_with(b"--") || a.len() < 4) {
                out.problem(format!("unexpected arguments {rest:?} in {args:?}"));
            }
            if rest.iter().any(|a| a == "--format" || a.as_bytes().starts_with(b"--format=")) {
                out.problem(format!("a format that was not requested: {args:?}"));
            }
            out.class("yt-dlp");
            out.nontrivial = on || format.is_some() || odd(url.as_bytes());
            return out;
        }
        CmdSpec::Ffmpeg { format, build, custom_path, piped } => {
            let prog = program(*custom_path, "ffmpeg", "ffmpeg-argdump");
            let mut b = FfmpegConvertAudioCommand::new(format);
            if *custom_path {
                b = b.ffmpeg_path(prog.clone());
            }
            let mut extra: Vec<OsString> = vec![];
            for x in build {
                match x {
                    Build::Arg(a) | Build::Insert(_, a) => {
                        b = b.arg(os(a));
                        extra.push(os(a));
                    }
                    Build::Args(v) => {
                        b = b.args(v.iter().map(|a| os(a)));
                        extra.extend(v.iter().map(|a| os(a)));
                    }
                }
            }
            let res = if *piped {
                let feed = Command::new(dir.join("generic-argdump")).arg("fed");
                run(CommandBuilder::new(feed).pipe(b))
            } else {
                // nothing to read
                run(CommandBuilder::new(Command::new("true")).pipe(b))
            };
            let got = match res {
                Ok(r) => r,
                Err(e) => return Outcome::fail(format!("running the command failed: {e}")),
            };
            let fed = if *piped { dump(dir.join("generic-argdump").as_os_str(), &[OsString::from("fed")]) } else { vec![] };
            let Some(own) = got.strip_suffix(fed.as_slice()) else {
                out.problem("ffmpeg did not get the output of the previous command on standard input");
                return out;
            };
            let args = split(own);
            if args.first() != Some(&prog) {
                out.problem(format!("{:?} was run instead of {prog:?}", args.first()));
            }
            let n = args.len();
            if n < 2 || args[n - 1] != "-" {
                out.problem(format!("the last argument is not the standard output: {args:?}"));
                return out;
            }
            let mid = &args[1..n - 1];
            let Some(own) = mid.len().checked_sub(extra.len()).filter(|k| mid[*k..] == extra[..]) else {
                out.problem(format!("the extra arguments {extra:?} are not right before the output: {args:?}"));
                return out;
            };
            let own = &mid[..own];
            let pair = |a: &str, b: &str| own.windows(2).filter(|w| w[0] == a && w[1] == b).count();
            if pair("-i", "pipe:") + pair("-i", "-") + pair("-i", "pipe:0") != 1 {
                out.problem(format!("standard input is not the input: {args:?}"));
            }
            if pair("-f", format) != 1 || own.iter().filter(|a| *a == "-f").count() != 1 + usize::from(format == "-f") {
                out.problem(format!("the format is not {format:?}: {args:?}"));
            }
            out.class("ffmpeg");
            out.nontrivial = true;
            return out;
        }
    };
    match result {
        Ok(got) if got == expected => {}
        Ok(got) => out.problem(format!("the program was run as {:?} instead of {:?}", split(&got), split(&expected))),
        Err(e) => out.problem(format!("running the command failed: {e}")),
    }
    out.class("generic");
    out.nontrivial = split(&expected)[1..].iter().any(|a| odd(a.as_bytes()));
    out
}

fn odd(a: &[u8]) -> bool {
    a.is_empty() || a.iter().any(|b| !b.is_ascii_alphanumeric() && !b"=:-".contains(b))
}

fn dump(program: &OsStr, args: &[OsString]) -> Vec<u8> {
    let mut v = program.as_bytes().to_vec();
    v.push(0);
    for a in args {
        v.extend_from_slice(a.as_bytes());
        v.push(0);
    }
    v
}

fn split(v: &[u8]) -> Vec<OsString> {
    let mut parts: Vec<OsString> = v.split(|b| *b == 0).map(os).collect();
    parts.pop();
    parts
}

/// Everything the command writes to its standard output.
fn run(command: impl SpawnCommand) -> Result<Vec<u8>, String> {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    }
    RT.with(|rt| {
        rt.block_on(async {
            let params = ProcessStreamParams::new(command).map_err(|e| format!("spawn: {e}"))?;
            let mut s = ProcessStream::create(params).await.map_err(|e| format!("{e}"))?;
            let mut got = vec![];
            while let Some(c) = s.next().await {
                got.extend_from_slice(&c.map_err(|e| format!("read: {e}"))?);
            }
            s.on_finish(Ok(()), stream_download::source::StreamOutcome::Completed)
                .await
                .map_err(|e| format!("finish: {e}"))?;
            Ok(got)
        })
    })
}
