//! Generators of simulated cases.
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;

use crate::sched::SchedSpec;
use crate::sim::{Op, SimCase};
use crate::source::{Beh, Item, SourceSpec};
use crate::store::{Fault, Kind, StoreSpec};

/// What a family of cases may contain.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_len: u32,
    /// Weights: memory, temp, bounded memory, bounded temp, adaptive, custom.
    pub kinds: [u32; 6],
    /// Weights of (seekable, known length).
    pub seekable: (u32, u32),
    pub known: (u32, u32),
    pub empties: u32,
    pub errs: u32,
    pub stalls: u32,
    pub dead: u32,
    pub silent: u32,
    pub early_end: u32,
    /// Long runs of error items or empty chunks.
    pub runs: u32,
    /// Sources that deliver more than they were asked for.
    pub over: bool,
    pub rec_faults: bool,
    pub seek_delays: bool,
    pub seek_errs: bool,
    pub store_faults: bool,
    pub finish: bool,
    pub seeks: bool,
    pub raw_seeks: bool,
    pub sleeps: u32,
    pub cancels: u32,
    pub handles: bool,
    pub no_cancel_on_drop: bool,
    pub max_ops: usize,
    /// End the program with reading to the end.
    pub finale: bool,
    pub over_reads: bool,
}

impl Cfg {
    pub const BASE: Cfg = Cfg {
        max_len: 600,
        kinds: [4, 2, 0, 0, 1, 2],
        seekable: (3, 1),
        known: (3, 1),
        empties: 1,
        errs: 0,
        stalls: 0,
        dead: 0,
        silent: 0,
        early_end: 0,
        runs: 0,
        over: false,
        rec_faults: false,
        seek_delays: true,
        seek_errs: false,
        store_faults: false,
        finish: false,
        seeks: true,
        raw_seeks: false,
        sleeps: 1,
        cancels: 0,
        handles: false,
        no_cancel_on_drop: false,
        max_ops: 9,
        finale: true,
        over_reads: false,
    };
}

fn size(max: u32) -> BoxedStrategy<u32> {
    let m = max.max(2);
    prop_oneof![
        3 => 0..m.min(9),
        5 => 0..m.min(70),
        3 => 0..m,
    ]
    .boxed()
}

fn chunk() -> BoxedStrategy<u32> {
    prop_oneof![3 => 1..9u32, 4 => 1..64u32, 2 => 1..400u32].boxed()
}

pub fn sched() -> BoxedStrategy<SchedSpec> {
    let pre = vec((prop_oneof![4 => 0..40u16, 2 => 0..400u16], prop_oneof![4 => Just(0u8), 1 => 1..60u8]), 0..6);
    (
        any::<bool>(),
        any::<bool>(),
        pre,
        option::weighted(0.35, (any::<u64>(), prop_oneof![Just(3u8), Just(12), Just(60)])),
    )
        .prop_map(|(d_first, wake_switch, preempt, random)| SchedSpec { d_first, wake_switch, preempt, random })
        .boxed()
}

fn item(c: &Cfg, retry: u16) -> BoxedStrategy<Item> {
    let mut opts: Vec<(u32, BoxedStrategy<Item>)> = vec![(20, chunk().prop_map(Item::Chunk).boxed())];
    let mut add = |w: u32, s: BoxedStrategy<Item>| {
        if w > 0 {
            opts.push((w, s));
        }
    };
    add(c.empties, Just(Item::Empty).boxed());
    add(c.errs, Just(Item::Err).boxed());
    let r = retry.max(4);
    add(
        c.stalls,
        prop_oneof![
            2 => 1..r,
            2 => r.saturating_sub(2).max(1)..r + 3,
            2 => 1..r.saturating_mul(4),
        ]
        .prop_map(Item::Stall)
        .boxed(),
    );
    add(c.dead, Just(Item::Dead).boxed());
    add(c.silent, Just(Item::Silent).boxed());
    add(
        c.runs,
        prop_oneof![
            (600..1500u16).prop_map(Item::Errs),
            (600..1500u16).prop_map(Item::Empties),
            (600..1500u16).prop_map(Item::Ends),
        ]
        .boxed(),
    );
    if c.errs > 0 && c.runs == 0 {
        // a source that keeps failing for a while
        add(1, prop_oneof![2 => (2..60u16).prop_map(Item::Errs), 1 => (2..60u16).prop_map(Item::Empties)].boxed());
    }
    add(c.early_end, Just(Item::End).boxed());
    proptest::strategy::Union::new_weighted(opts).boxed()
}

fn beh(c: bool, errs: bool, hangs: bool, retry: u16) -> BoxedStrategy<Vec<Beh>> {
    if !c && !errs {
        return Just(vec![]).boxed();
    }
    let mut opts: Vec<(u32, BoxedStrategy<Beh>)> = vec![(4, Just(Beh::Ok).boxed())];
    if c {
        opts.push((3, (1..retry.max(3) * 2).prop_map(Beh::Delay).boxed()));
    }
    if errs {
        opts.push((2, Just(Beh::Err).boxed()));
    }
    if hangs {
        opts.push((2, Just(Beh::Hang).boxed()));
    }
    let long = if errs {
        prop_oneof![2 => Just(Beh::Err), 1 => Just(if hangs { Beh::Hang } else { Beh::Err }), 1 => (1..retry.max(3) * 2).prop_map(Beh::Delay)]
            .boxed()
    } else {
        Just(Beh::Ok).boxed()
    };
    prop_oneof![
        40 => vec(proptest::strategy::Union::new_weighted(opts), 0..5),
        1 => vec(long, 0..40),
    ]
    .boxed()
}

pub fn kind(c: &Cfg, len: u32) -> BoxedStrategy<Kind> {
    let cap = prop_oneof![3 => 1..12u16, 4 => 1..80u16, 2 => 1..(len as u16 + 20)];
    let mut opts: Vec<(u32, BoxedStrategy<Kind>)> = vec![];
    let all = [
        Just(Kind::Memory).boxed(),
        Just(Kind::Temp).boxed(),
        cap.clone().prop_map(Kind::BoundedMemory).boxed(),
        cap.clone().prop_map(Kind::BoundedTemp).boxed(),
        cap.prop_map(Kind::Adaptive).boxed(),
        prop_oneof![
            (1..30u16, 1..30u16).prop_map(|(max_write, max_read)| Kind::Custom { max_write, max_read }),
            (1..300u16, 1..30u16).prop_map(|(buffer, max_read)| Kind::Buffered { buffer, max_read }),
        ]
        .boxed(),
    ];
    for (w, s) in c.kinds.iter().zip(all) {
        if *w > 0 {
            opts.push((*w, s));
        }
    }
    proptest::strategy::Union::new_weighted(opts).boxed()
}

fn op(c: &Cfg, len: u32, retry: u16) -> BoxedStrategy<Op> {
    let pos = move || prop_oneof![4 => 0..len + 1, 1 => len.saturating_sub(2)..len + 6, 1 => 0..3u32];
    let mut opts: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (12, prop_oneof![6 => size(len / 2 + 8), 1 => 1..len + 10].prop_map(Op::Read).boxed()),
        (1, (1..70u32).prop_map(Op::ReadAll).boxed()),
        (1, Just(Op::Pos).boxed()),
    ];
    if c.seeks {
        opts.push((5, pos().prop_map(Op::Seek).boxed()));
        opts.push((2, pos().prop_map(Op::SeekCur).boxed()));
        opts.push((2, pos().prop_map(Op::SeekEnd).boxed()));
    }
    if c.raw_seeks {
        let off = prop_oneof![
            4 => -20..20i64,
            3 => -700..700i64,
            1 => Just(i64::MIN),
            1 => Just(i64::MAX),
            1 => any::<i64>(),
        ];
        let far = prop_oneof![
            2 => (0..100u64).prop_map(|o| u64::MAX - o),
            1 => (0..200u64).prop_map(|o| i64::MAX as u64 - 100 + o),
            1 => any::<u64>(),
        ];
        opts.push((1, far.prop_map(Op::RawStart).boxed()));
        opts.push((2, off.clone().prop_map(Op::RawCur).boxed()));
        opts.push((2, off.prop_map(Op::RawEnd).boxed()));
    }
    if c.sleeps > 0 {
        opts.push((c.sleeps, (1..retry.max(3) * 2).prop_map(Op::Sleep).boxed()));
    }
    if c.cancels > 0 {
        opts.push((c.cancels, prop_oneof![Just(Op::Cancel), Just(Op::CancelToken)].boxed()));
    }
    if c.handles {
        opts.push((2, Just(Op::Handle).boxed()));
    }
    proptest::strategy::Union::new_weighted(opts).boxed()
}

pub fn case(c: Cfg) -> BoxedStrategy<SimCase> {
    let head = (
        prop_oneof![1 => 0..4u32, 3 => 1..60u32, 4 => 1..c.max_len],
        prop_oneof![40 => 5..40u16, 60 => 20..300u16, 1 => 300..16_000u16],
        proptest::strategy::Union::new_weighted(vec![(c.seekable.0.max(0), Just(true)), (c.seekable.1, Just(false))].into_iter().filter(|w| w.0 > 0).collect::<Vec<_>>()),
        proptest::strategy::Union::new_weighted(vec![(c.known.0, Just(true)), (c.known.1, Just(false))].into_iter().filter(|w| w.0 > 0).collect::<Vec<_>>()),
    );
    head.prop_flat_map(move |(len, retry, seekable, known)| {
        let src = (
            vec(item(&c, retry), 0..14),
            chunk(),
            beh(c.seek_delays, c.seek_errs, false, retry),
            beh(c.rec_faults, c.rec_faults, c.rec_faults, retry),
            if c.finish { prop_oneof![3 => Just(0u16), 2 => 1..80u16].boxed() } else { Just(0u16).boxed() },
            if c.finish { prop::bool::weighted(0.25).boxed() } else { Just(false).boxed() },
            if c.over { prop_oneof![7 => Just(0u16), 1 => 1..40u16].boxed() } else { Just(0u16).boxed() },
        )
            .prop_map(move |(script, tail, seeks, reconnects, finish_delay, finish_fail, over)| SourceSpec {
                len,
                known_len: known,
                seekable,
                script,
                tail,
                seeks,
                reconnects,
                finish_delay,
                finish_fail,
                over,
            });
        let fault = if c.store_faults {
            let n = || prop_oneof![3 => 0..6u16, 1 => 0..40u16];
            option::weighted(
                0.6,
                prop_oneof![n().prop_map(Fault::Write), n().prop_map(Fault::Flush), (0..4u16).prop_map(Fault::Seek)],
            )
            .boxed()
        } else {
            Just(None).boxed()
        };
        let prefetch = prop_oneof![3 => Just(0u32), 3 => 1..20u32, 4 => 1..len + 30, 1 => prop_oneof![Just(100_000u32), Just(u32::MAX)]];
        let cancels = if c.cancels > 0 {
            vec(prop_oneof![2 => 0..8u16, 2 => 0..retry * 3], 0..2).boxed()
        } else {
            Just(vec![]).boxed()
        };
        let cancel_cb = if c.cancels > 0 {
            option::weighted(0.2, prop_oneof![4 => 0..8u8, 1 => 100..103u8]).boxed()
        } else {
            Just(None).boxed()
        };
        let handles = if c.handles {
            vec(prop_oneof![2 => 0..8u16, 2 => 0..retry * 4], 0..3).boxed()
        } else {
            Just(vec![]).boxed()
        };
        let ops = prop_oneof![
            40 => vec(op(&c, len, retry), 0..c.max_ops),
            1 => vec(op(&c, len, retry), 0..40),
        ];
        let ops = (ops, size(len + 8), 0..3u8, any::<u32>());
        let scale = prop_oneof![
            49 => Just((1u32, Snap::No)),
            1 => (
                prop_oneof![2u32..40, Just(64u32), 40u32..161],
                prop::sample::select(vec![Snap::No, Snap::Odd, Snap::Odd, Snap::Power(0), Snap::Power(-1), Snap::Power(1)]),
            ),
        ];
        (
            src,
            (kind(&c, len), fault),
            any::<u8>(),
            prefetch,
            prop_oneof![2 => 1..6u16, 3 => 1..80u16, 2 => Just(4096u16)],
            if c.no_cancel_on_drop { any::<bool>().boxed() } else { Just(true).boxed() },
            ops,
            sched(),
            (cancels, handles, cancel_cb, scale),
        )
            .prop_map(move |(mut src, (mut kind, fault), salt, mut prefetch, mut batch, cod, (mut ops, fin, mode, at), sched, (cancel_at, handles_at, cancel_cb, (k, odd)))| {
                if k > 1 {
                    enlarge(k, odd, &mut src, &mut kind, &mut prefetch, &mut batch, &mut ops);
                }
                let fin = if k > 1 { fin.max(1).saturating_mul(k) } else { fin };
                if c.finale {
                    if mode == 1 && c.seeks {
                        ops.push(Op::Seek(0));
                    } else if mode == 2 && c.seeks {
                        ops.push(Op::Seek(at));
                    }
                    ops.push(Op::ReadAll(fin.max(1)));
                }
                // an adaptive storage over an unknown length is bounded
                let kind = match kind {
                    Kind::Adaptive(_) if !src.known_len && c.kinds[2] + c.kinds[3] == 0 => Kind::Memory,
                    k => k,
                };
                if !src.known_len && matches!(kind, Kind::Temp | Kind::BoundedTemp(_)) {
                    // far away positions aren't clamped, and files refuse those
                    for op in &mut ops {
                        match op {
                            Op::RawCur(o) if *o > 2000 => *o %= 2000,
                            Op::RawStart(p) if *p > 2000 => *p %= 2000,
                            _ => {}
                        }
                    }
                }
                if !src.known_len || !src.seekable || kind.bounded(src.known_len).is_some() {
                    // the missing data won't be requested again
                    src.script.retain(|i| !matches!(i, Item::Ends(_)));
                }
                if let Some(cap) = kind.bounded(src.known_len) {
                    for op in &mut ops {
                        *op = for_capacity(*op, cap, c.over_reads);
                        not_too_small(op, src.len, cap);
                    }
                }
                SimCase {
                    src,
                    store: StoreSpec { kind, fault },
                    salt,
                    prefetch,
                    batch,
                    retry_ms: retry,
                    cancel_on_drop: cod,
                    ops,
                    sched,
                    cancel_at,
                    handles_at,
                    cancel_cb,
                }
            })
    })
    .boxed()
}

/// Long contents take too many steps byte by byte.
pub fn not_too_small(op: &mut Op, len: u32, cap: u64) {
    if let Op::ReadAll(n) = op {
        *n = (*n).max((len / 300).min(cap as u32));
    }
}

/// Multiplies all numbers of bytes.
#[derive(Clone, Copy, Debug)]
enum Snap {
    No,
    /// no multiples of one number
    Odd,
    /// close to powers of two
    Power(i32),
}

fn enlarge(k: u32, snap: Snap, src: &mut SourceSpec, kind: &mut Kind, prefetch: &mut u32, batch: &mut u16, ops: &mut [Op]) {
    let long = |n: &mut u32| {
        if *n > 0 && *n < u32::MAX / 200 {
            let m = *n * k;
            *n = match snap {
                Snap::No => m,
                Snap::Odd => m - (*n * 7 + 3) % (k / 2 + 1),
                Snap::Power(by) => m.next_power_of_two().saturating_add_signed(by),
            };
        }
    };
    let short = |n: &mut u16| {
        let mut l = u32::from(*n);
        long(&mut l);
        *n = l.min(u32::from(u16::MAX)) as u16;
    };
    long(&mut src.len);
    for item in &mut src.script {
        if let Item::Chunk(n) = item {
            long(n);
        }
    }
    long(&mut src.tail);
    short(&mut src.over);
    match kind {
        Kind::Memory | Kind::Temp => {}
        Kind::BoundedMemory(n) | Kind::BoundedTemp(n) | Kind::Adaptive(n) => short(n),
        Kind::Custom { max_write, max_read } => {
            short(max_write);
            short(max_read);
        }
        Kind::Buffered { buffer, max_read } => {
            short(buffer);
            short(max_read);
        }
    }
    long(prefetch);
    short(batch);
    for op in ops {
        match op {
            Op::Read(n) | Op::ReadAll(n) | Op::Seek(n) | Op::SeekCur(n) | Op::SeekEnd(n) => long(n),
            _ => {}
        }
    }
}

/// Most operations on a bounded storage should be within its limits.
fn for_capacity(op: Op, cap: u64, over: bool) -> Op {
    let fit = |n: u32| {
        if u64::from(n) > cap && !(over && n % 5 == 0) { (u64::from(n) % cap) as u32 + 1 } else { n }
    };
    match op {
        Op::Read(n) => Op::Read(fit(n)),
        Op::ReadAll(n) => Op::ReadAll((u64::from(n) % (cap + 1)).max(1) as u32),
        Op::Seek(t) if t % 3 == 1 => Op::RawCur((u64::from(t) % (2 * cap + 1)) as i64 - cap as i64),
        Op::SeekCur(t) if t % 4 != 0 => Op::RawCur((u64::from(t) % (2 * cap + 1)) as i64 - cap as i64),
        op => op,
    }
}
