//! The executor implemented for tokio's handle: every completion order, detachment and shutdown of small task sets.
use super::*;
use futures::channel::oneshot;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

type Local = VirtualPtr<dyn 'static + FfiFutureExecutor>;

struct Out(usize, Arc<AtomicU32>);
impl Drop for Out {
    fn drop(&mut self) {
        self.1.fetch_add(1, SeqCst);
    }
}

pub fn phases(s: &mut Session, t: bool) {
    let _ = t;
    s.phase("tokio", 3, tokio_orders);
    s.phase("tokio shutdown", 3 * 3 * 2, tokio_shutdown);
}
/// The runtime shuts down while a task is pending: whoever awaits it is told so, as by any other executor.
fn tokio_shutdown(c: &mut Chooser) -> Res {
    super::reset(c);
    let (kind, polled_before, finishes) = (c.top % 3, c.top / 3 % 3, c.top / 9 == 1);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).max_blocking_threads(1).build().unwrap();
    let e: Local = Box::new(rt.handle().clone()).into();
    let drops = Arc::new(AtomicU32::new(0));
    let (tx, rx) = oneshot::channel::<()>();
    let d = drops.clone();
    let (rtx, rrx) = std::sync::mpsc::channel::<()>();
    c.log(|| format!("{}, polled {polled_before} times before, {}", ["dyn_spawn", "spawn", "spawn_blocking"][kind], if finishes { "completes" } else { "does not complete" }));
    c.step();
    c.state(c.top as u64 + 1);
    c.outcome(c.top as u64 % 3 * 2 + finishes as u64);
    let fut = async move {
        let out = Out(0, d);
        let _ = rtx.send(());
        if rx.await.is_err() {
            futures::future::pending::<()>().await
        }
        out
    };
    let mut h: Pin<Box<dyn Future<Output = Option<Out>>>> = match kind {
        0 => {
            let f = e.dyn_spawn(Box::pin(async move { drop(fut.await) }).into());
            Box::pin(async move {
                f.into_future().await;
                None
            })
        },
        1 => {
            let f = e.spawn(fut);
            Box::pin(async move { Some(f.await) })
        },
        _ => {
            // After the shutdown, the action is dropped without being run.
            if !finishes {
                rt.shutdown_background();
            }
            let owned = Out(0, drops.clone());
            let f: Pin<Box<dyn Future<Output = Option<Out>>>> = {
                let f = e.spawn_blocking(move || owned);
                Box::pin(async move { f.await.ok() })
            };
            match catches(|| futures::executor::block_on(f)) {
                Err(()) => return Err("awaiting a blocking task panics".into()),
                Ok(out) => ensure!(out.is_some() == finishes, "a blocking task that was {} reported as {}", if finishes { "run" } else { "dropped" }, if finishes { "cancelled" } else { "run" }),
            }
            drop(e);
            ensure!(drops.load(SeqCst) == 1, "a blocking task's captures were dropped {} times", drops.load(SeqCst));
            return Ok(());
        },
    };
    rrx.recv().unwrap();
    let noop = futures::task::noop_waker();
    for _ in 0..polled_before {
        ensure!(h.as_mut().poll(&mut Context::from_waker(&noop)).is_pending(), "the handle of a pending task is ready");
    }
    if finishes {
        let _ = tx.send(());
        // (Completed, as opposed to dropped.)
        let out = rt.block_on(h);
        ensure!(out.is_some() == (kind == 1), "the output of a task that completed got lost");
        drop(out);
        drop(rt);
    } else {
        drop(rt);
        ensure!(drops.load(SeqCst) == 0 || drops.load(SeqCst) == 1, "dropped more than once");
        let r = catches(|| futures::executor::block_on(h));
        match (kind, r) {
            (0, Ok(None)) => {},
            (1, Err(())) => ensure!(vc::last_panic().contains("before its completion"), "unexpected panic: {}", vc::last_panic()),
            (_, Err(())) => return Err(format!("awaiting a task whose runtime was shut down panics: {}", vc::last_panic())),
            _ => return Err("a task whose runtime was shut down has an output".into()),
        }
        drop(tx);
    }
    drop(e);
    ensure!(drops.load(SeqCst) <= 1, "dropped {} times", drops.load(SeqCst));
    Ok(())
}
fn tokio_orders(c: &mut Chooser) -> Res {
    super::reset(c);
    let n = c.top + 1;
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).max_blocking_threads(3).build().unwrap();
    let e: Local = Box::new(rt.handle().clone()).into();
    let drops = Arc::new(AtomicU32::new(0));
    let started = Arc::new(AtomicU32::new(0));
    let mut go = vec![];
    let mut handles: Vec<Option<Pin<Box<dyn Send + Future<Output = Option<Out>>>>>> = vec![];
    let mut plan = vec![];
    for i in 0..n {
        let (tx, rx) = oneshot::channel::<()>();
        let (d, st) = (drops.clone(), started.clone());
        let kind = c.choose(3);
        plan.push(kind);
        handles.push(Some(match kind {
            0 => {
                let f = e.spawn(async move {
                    let out = Out(i, d);
                    st.fetch_add(1, SeqCst);
                    let _ = rx.await;
                    out
                });
                Box::pin(async move { Some(f.await) })
            },
            1 => {
                let f = e.spawn_blocking(move || {
                    let out = Out(i, d);
                    st.fetch_add(1, SeqCst);
                    let _ = futures::executor::block_on(rx);
                    out
                });
                Box::pin(async move { f.await.ok() })
            },
            _ => {
                let f = e.spawn_within_tokio_reactor(async move {
                    let out = Out(i, d);
                    st.fetch_add(1, SeqCst);
                    let _ = rx.await;
                    out
                });
                Box::pin(async move { Some(f.await) })
            },
        }));
        go.push(Some(tx));
    }
    // Some are let go of before they complete.
    let detached = c.choose(n + 1);
    if detached < n {
        handles[detached] = None;
    }
    // The order of their completion.
    let mut order = vec![];
    let mut rest: Vec<usize> = (0..n).collect();
    while !rest.is_empty() {
        order.push(rest.remove(c.choose(rest.len())));
    }
    let backwards = c.choose(2) == 1;
    let inside = c.choose(2) == 1;
    c.log(|| format!("kinds {plan:?}, detached {detached}, complete in order {order:?}, awaited {}, {}", if backwards { "backwards" } else { "forwards" }, if inside { "block_on" } else { "block_on_within_tokio_reactor" }));
    c.step();
    while started.load(SeqCst) < n as u32 {
        std::thread::yield_now()
    }
    for &i in &order {
        let _ = go[i].take().unwrap().send(());
    }
    let which: Vec<usize> = if backwards { (0..n).rev().collect() } else { (0..n).collect() };
    let fut = async {
        let mut outs = vec![];
        for &i in &which {
            if let Some(h) = handles[i].take() {
                outs.push((i, h.await))
            }
        }
        outs
    };
    let outs = if inside { e.block_on(fut) } else { e.block_on_within_tokio_reactor(fut) };
    for (i, out) in &outs {
        match out {
            None => return Err(format!("task {i}, which completed, was reported cancelled")),
            Some(o) => ensure!(o.0 == *i, "whoever awaited task {i} was given the output of {}", o.0),
        }
    }
    ensure!(drops.load(SeqCst) as usize <= n - outs.len(), "an output was dropped early");
    let k = outs.len();
    drop(outs);
    {
        let _g = e.enter();
        ensure!(tokio::runtime::Handle::try_current().is_ok(), "enter does not enter");
    }
    ensure!(tokio::runtime::Handle::try_current().is_err(), "dropping the guard of enter does not leave");
    drop(e);
    drop(rt);
    ensure!(drops.load(SeqCst) as usize == n, "{n} tasks, {k} awaited: {} outputs were dropped", drops.load(SeqCst));
    c.state(hash_of(&(n, &plan, detached, &order, backwards, inside)));
    c.outcome(hash_of(&(k, &order)));
    Ok(())
}
