//! Check C24: several clients at once.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use mcrt::explore::{choose, log_line, step, Scenario, Viol};
use mcrt::sched::{self, WorldCfg};
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, EventCallback};

use crate::client_a::{still, event_text, packet_show, parse_sent};
use crate::driver::{idling, scenario, viol, Tier};
use crate::reference::Kind;
use crate::world::*;

/// Lines by client.
type Lines = Arc<Mutex<Vec<Vec<String>>>>;

/// A handler registered with several clients; the first argument says whose event it is.
fn shared(lines: &Lines) -> EventCallback {
    let lines = lines.clone();
    EventCallback::from(move |args: &Args, ack: Option<AckBuilder>| {
        let k: usize = args.get(1).and_then(|a| a.deserialize().ok()).unwrap_or(0);
        mcrt::point("inside the shared handler");
        let mut l = lines.lock().unwrap();
        if k < l.len() {
            l[k].push(format!("shared {}", show_args(args)));
        }
        drop(l);
        if let Some(a) = ack {
            a.args().arg(&k).unwrap().send()
        }
    })
}

struct Side {
    who: usize,
    ctx: Ctx,
    client: Option<Client>,
    ended: Option<bool>,
    ids: Vec<u64>,
    answered: usize,
    replies: Arc<Mutex<Vec<AckBuilder>>>,
    names: usize,
    /// what it sent, ids replaced by their rank
    sent: Vec<String>,
}

const OPS: usize = 18;

impl Side {
    fn new(who: usize) -> Result<Side, Viol> {
        let ctx = Ctx::new();
        let c = ctx.connect()?;
        Ok(Side {
            who,
            ctx,
            client: Some(c),
            ended: None,
            ids: Vec::new(),
            answered: 0,
            replies: Arc::default(),
            names: 0,
            sent: Vec::new(),
        })
    }
    fn collect(&mut self) -> Result<(), Viol> {
        for mut p in parse_sent(&self.ctx.net.take())? {
            if p.0.kind == Kind::Event {
                if let Some(id) = p.0.id {
                    self.ids.push(id);
                    p.0.id = Some(self.ids.len() as u64 - 1);
                }
            }
            self.sent.push(packet_show(&p));
        }
        Ok(())
    }
    fn end(&mut self) {
        if let Some(mut c) = self.client.take() {
            self.ended = Some(self.ctx.close(&mut c).is_ok());
        }
    }
    fn op(&mut self, op: usize, shared: &EventCallback) -> Result<(), Viol> {
        step();
        log_line(|| format!("client {} operation {}", self.who, op));
        let obs = self.ctx.obs.clone();
        let net = self.ctx.net.clone();
        self.names += 1;
        let name = format!("{}", self.names);
        let tag = format!(",{}", self.who);
        match op {
            0..=6 => {
                if let Some(c) = self.client.as_mut() {
                    match op {
                        0 => {
                            let (st, obs) = (self.replies.clone(), obs.clone());
                            c.set_event_callback("x", move |a: &Args, ack: Option<AckBuilder>| {
                                obs.push(format!("h{} {}", name, show_args(a)));
                                st.lock().unwrap().extend(ack);
                            })
                        }
                        1 => c.clear_event_callback("x"),
                        2 => c.set_fallback_callback(handler(&obs, &format!("f{}", name))),
                        3 => c.set_event_callback("y", shared.clone()),
                        4 => c.emit("e").callback(ack_handler(&obs, &format!("cb{}", name))).args().send(),
                        5 => c.namespace_emit("/n", "e").binary(true).args().arg(&[1u8, 2][..]).unwrap().send(),
                        _ => {
                            // abandoned
                            let _ = c.emit("e").callback(ack_handler(&obs, "never")).args();
                        }
                    }
                }
            }
            7 => net.text(&event_text("/", Some(5), "x", &tag)),
            8 => net.text(&event_text("/", Some(6), "y", &tag)),
            9 => {
                if self.answered < self.ids.len() {
                    net.text(&format!("43{}[{}]", self.ids[self.answered], self.who));
                    self.answered += 1;
                }
            }
            10 => net.text(&format!("451-[\"x\",{},{{\"_placeholder\":true,\"num\":0}}]", self.who)),
            11 => net.push(&att(&[self.who as u8])),
            12 => net.text("2"),
            13 => net.text("4{"),
            14 => self.end(),
            15 => drop(self.client.take()),
            16 => {
                let r = self.replies.lock().unwrap().pop();
                if let Some(r) = r {
                    r.args().arg("reply").unwrap().send()
                }
            }
            _ => net.server_close(None),
        }
        self.ctx.settle()?;
        self.collect()
    }
}

/// What every client showed.
type Shown = Vec<(Vec<String>, Vec<String>, Vec<String>, Option<bool>)>;

/// The given operations, by client.
fn play(sides: usize, ops: &[(usize, usize)]) -> Result<Shown, Viol> {
    let lines: Lines = Arc::new(Mutex::new(vec![Vec::new(); sides]));
    let sh = shared(&lines);
    let mut all: Vec<Option<Side>> = Vec::new();
    for k in 0..sides {
        let used = ops.iter().any(|o| o.0 == k);
        all.push(if used { Some(Side::new(k)?) } else { None });
    }
    for (k, op) in ops {
        all[*k].as_mut().unwrap().op(*op, &sh)?;
    }
    for s in all.iter_mut().flatten() {
        s.end();
        s.collect()?;
    }
    sched::settle();
    let l = lines.lock().unwrap().clone();
    Ok(all
        .into_iter()
        .zip(l)
        .map(|(s, l)| match s {
            Some(s) => (s.ctx.obs.get(), s.sent.clone(), l, s.ended),
            None => (Vec::new(), Vec::new(), l, None),
        })
        .collect())
}

fn played(sides: usize, ops: Vec<(usize, usize)>) -> Result<Shown, Viol> {
    let out: Arc<Mutex<Option<Shown>>> = Arc::default();
    let o = out.clone();
    run(&still(), move |_| {
        *o.lock().unwrap() = Some(play(sides, &ops)?);
        Ok(0)
    })?;
    let r = out.lock().unwrap().take();
    Ok(r.unwrap())
}

/// Every client of a mixed history shows what it shows alone.
fn c24_history(prefix: &[(usize, usize)], depth: usize) -> Result<u64, Viol> {
    let mut ops = prefix.to_vec();
    for _ in 0..depth {
        ops.push((choose(2), choose(OPS)));
    }
    compare(2, ops)
}

fn compare(sides: usize, ops: Vec<(usize, usize)>) -> Result<u64, Viol> {
    let both = played(sides, ops.clone())?;
    for k in 0..sides {
        let own: Vec<(usize, usize)> = ops.iter().copied().filter(|o| o.0 == k).collect();
        if own.is_empty() {
            continue;
        }
        let alone = played(sides, own)?;
        if both[k] != alone[k] {
            return Err(viol(
                "influence",
                format!(
                    "client {} of the history {:?} (client, operation) shows {:?}, alone {:?}",
                    k, ops, both[k], alone[k]
                ),
            ));
        }
    }
    let parts: Vec<Vec<String>> = both.iter().map(|b| vec![format!("{:?}", b)]).collect();
    Ok(dig(&parts))
}

/// Many clients, each doing the same.
fn c24_crowd(sizes: &'static [usize]) -> Result<u64, Viol> {
    let n = sizes[choose(sizes.len())];
    let rounds: &[usize] = &[0, 3, 4, 5, 7, 8, 9, 10, 12, 11, 16];
    let by_client = choose(2) == 1;
    let mut ops = Vec::new();
    if by_client {
        for k in 0..n {
            ops.extend(rounds.iter().map(|r| (k, *r)));
        }
    } else {
        for r in rounds {
            ops.extend((0..n).map(|k| (k, *r)));
        }
    }
    // one of them fails in the middle, another closes
    ops.insert(ops.len() / 2, (n / 2, 13));
    ops.insert(ops.len() / 3, (n / 3, 14));
    let both = {
        let out: Arc<Mutex<Option<Shown>>> = Arc::default();
        let o = out.clone();
        let ops = ops.clone();
        let cfg = WorldCfg {
            max_steps: 100_000 + 20_000 * n as u64,
            ..still()
        };
        run(&cfg, move |_| {
            *o.lock().unwrap() = Some(play(n, &ops)?);
            Ok(0)
        })?;
        let r = out.lock().unwrap().take();
        r.unwrap()
    };
    for k in [0, 1, n / 3, n / 2, n - 1] {
        let own: Vec<(usize, usize)> = ops.iter().copied().filter(|o| o.0 == k).collect();
        let alone = played(n, own)?;
        if both[k] != alone[k] {
            return Err(viol("influence", format!("client {} of {} shows {:?}, alone {:?}", k, n, both[k], alone[k])));
        }
    }
    Ok(n as u64)
}

/// Two connections at work at the same time, with a handler in common, and handlers that use the other client.
fn c24_threads(cross: bool, drop_one: bool) -> Result<u64, Viol> {
    run(&WorldCfg::default(), move |ctx| {
        let lines: Lines = Arc::new(Mutex::new(vec![Vec::new(); 2]));
        let sh = shared(&lines);
        let other = Ctx::new();
        let both = [ctx, &other];
        let clients: Arc<Mutex<Vec<Arc<Mutex<Option<Client>>>>>> = Arc::default();
        let changed = Arc::new(AtomicUsize::new(0));
        for (k, x) in both.iter().enumerate() {
            let mut c = x.connect()?;
            c.set_event_callback("y", sh.clone());
            if cross {
                let (all, ch) = (clients.clone(), changed.clone());
                c.set_event_callback("x", move |a: &Args, _: Option<AckBuilder>| {
                    let o = all.lock().unwrap()[1 - k].clone();
                    let mut o = o.lock().unwrap();
                    if let Some(o) = o.as_mut() {
                        o.emit("crossed").args().arg(&show_args(a)).unwrap().send();
                        o.set_event_callback("z", |_: &Args, _: Option<AckBuilder>| {});
                        ch.fetch_add(1, SeqCst);
                    }
                });
            }
            clients.lock().unwrap().push(Arc::new(Mutex::new(Some(c))));
        }
        for (k, x) in both.iter().enumerate() {
            x.net.text(&event_text("/", Some(1), "y", &format!(",{},1", k)));
            if cross {
                x.net.text(&event_text("/", None, "x", &format!(",{}", k)));
            }
            x.net.text(&event_text("/", None, "y", &format!(",{},2", k)));
        }
        let mut n = 2;
        if drop_one {
            n = 1;
            let c = clients.lock().unwrap()[1].clone();
            sched::spawn("dropper", false, move || {
                let c = c.lock().unwrap().take();
                drop(c)
            });
        }
        for c in clients.lock().unwrap().iter().take(n) {
            c.lock().unwrap().as_mut().unwrap().emit("m").args().send();
        }
        sched::settle();
        for (k, x) in both.iter().enumerate().take(n) {
            let mut want = vec![format!("shared [\"y\",{},1]", k), format!("shared [\"y\",{},2]", k)];
            let got = lines.lock().unwrap()[k].clone();
            eq_list("shared", &format!("calls for client {}", k), &got, &want)?;
            let mut sent: Vec<String> = parse_sent(&x.net.got())?.iter().map(packet_show).collect();
            sent.sort();
            want = vec![format!("ack / 1 [{}] []", k), "event / - [\"m\"] []".to_string()];
            if cross {
                if !drop_one {
                    want.insert(1, format!("event / - [\"crossed\",\"[\\\"x\\\",{}]\"] []", 1 - k));
                } else {
                    // the dropped client's handler may or may not have run
                    sent.retain(|s| !s.contains("crossed"));
                }
            }
            eq_list("sent", &format!("packets of client {}", k), &sent, &want)?;
            let c = clients.lock().unwrap()[k].lock().unwrap().take();
            if let Err(e) = x.close(&mut c.unwrap()) {
                return Err(viol("result", format!("closing client {} reports {}", k, e)));
            }
        }
        if drop_one && (!other.task_done() || !other.net.dropped()) {
            return Err(viol("drop", "the dropped client's connection goes on"));
        }
        let l = lines.lock().unwrap().clone();
        Ok(dig(&l))
    })
}

pub fn c24(tier: Tier) -> Vec<Scenario> {
    let sizes = tier.pick(&[2usize, 3, 17, 100][..], &[2, 3, 5, 16, 17, 32, 33, 64, 65, 100, 257, 500]);
    let b = tier.pick(3, 4);
    let d = tier.pick(3, 4);
    vec![
        scenario(format!("histories of {}", d), 0, move || c24_history(&[], d)),
        idling(scenario(format!("histories of {}", d), 0, move || c24_history(&[], d))),
        scenario(format!("histories of {} on busy clients", d - 1), 0, move || {
            c24_history(&[(0, 0), (1, 0), (0, 3), (1, 3), (0, 4), (1, 4), (0, 7), (1, 7), (0, 10)], d - 1)
        }),
        scenario("many clients", 0, move || c24_crowd(sizes)),
        scenario("a handler in common", b, || c24_threads(false, false)),
        scenario("handlers that use the other client", b, || c24_threads(true, false)),
        scenario("a handler in common, one client dropped", b, || c24_threads(false, true)),
        scenario("handlers that use the other client, one dropped", b, || c24_threads(true, true)),
    ]
}
