//! C19: real listeners with good, dying, silent, hostile and panicking clients.
//! C20: binding Unix addresses over whatever is at the path, with snapshots of the file system.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Nothing in these scenarios takes long; only a hang reaches this limit.
const LIMIT: Duration = Duration::from_secs(25);

static DIRS: AtomicU64 = AtomicU64::new(0);

/// Scratch directory, removed on drop.
pub struct Scratch(pub PathBuf);

impl Scratch {
	pub fn new() -> Self {
		let p = std::env::temp_dir().join(format!("fizyr-verif-{}-{}", std::process::id(), DIRS.fetch_add(1, SeqCst)));
		std::fs::create_dir(&p).unwrap();
		Scratch(p)
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

#[derive(Debug, Clone, PartialEq)]
pub enum Who {
	Tcp { local: SocketAddr, remote: SocketAddr },
	Unix { uid: u32, gid: u32, pid: Option<i32> },
}

#[derive(Clone, Debug)]
pub enum Addr {
	Tcp(SocketAddr),
	Unix(PathBuf),
}

/// A listener kind.
pub trait LKit: Kit
where
	Self::B: Send + Sync,
{
	type Socket: ListeningSocket<Body = Self::B> + fizyr_rpc::util::Listener<Address: Send> + Send;
	fn lconfig(cfg: &Cfg) -> <Self::Socket as ListeningSocket>::Config;
	/// `through`: use the bind function of the crate for TCP too.
	async fn listen(cfg: &Cfg, dir: &Path) -> std::io::Result<(Listener<Self::Socket>, Addr)>;
	async fn bind(cfg: &Cfg, path: &Path) -> std::io::Result<Listener<Self::Socket>>;
	fn who(info: &<Self::Socket as ListeningSocket>::TransportInfo) -> Who;
	/// Not Send, because `Peer::connect()` is not.
	async fn connect(addr: &Addr, cfg: &Cfg) -> std::io::Result<(PeerHandle<Self::B>, Who)>;
	/// Blocking connect of a plain socket.
	fn raw(addr: &Addr) -> std::io::Result<OwnedFd>;
}

fn tcp_of(i: &fizyr_rpc::transport::TcpStreamInfo) -> Who {
	Who::Tcp { local: *i.local_address(), remote: *i.remote_address() }
}

impl LKit for Tcp {
	type Socket = tokio::net::TcpListener;
	fn lconfig(cfg: &Cfg) -> StreamConfig {
		cfg.stream()
	}
	async fn listen(cfg: &Cfg, dir: &Path) -> std::io::Result<(Listener<Self::Socket>, Addr)> {
		if dir.as_os_str().len() % 2 == 0 {
			// Through the bind function of the crate: find a free port first.
			for _ in 0..20 {
				let l = std::net::TcpListener::bind("127.0.0.1:0")?;
				let a = l.local_addr()?;
				drop(l);
				if let Ok(l) = Listener::bind(a, cfg.stream()).await {
					return Ok((l, Addr::Tcp(a)));
				}
			}
		}
		let l = tokio::net::TcpListener::bind("127.0.0.1:0").await?;
		let a = l.local_addr()?;
		Ok((Listener::new(l, cfg.stream()), Addr::Tcp(a)))
	}
	async fn bind(_: &Cfg, _: &Path) -> std::io::Result<Listener<Self::Socket>> {
		unreachable!()
	}
	fn who(i: &fizyr_rpc::transport::TcpStreamInfo) -> Who {
		tcp_of(i)
	}
	async fn connect(addr: &Addr, cfg: &Cfg) -> std::io::Result<(PeerHandle<Self::B>, Who)> {
		let Addr::Tcp(a) = addr else { unreachable!() };
		let (h, i) = TcpPeer::connect(*a, cfg.stream()).await?;
		Ok((h, tcp_of(&i)))
	}
	fn raw(addr: &Addr) -> std::io::Result<OwnedFd> {
		let Addr::Tcp(a) = addr else { unreachable!() };
		Ok(std::net::TcpStream::connect(a)?.into())
	}
}

impl LKit for UnixS {
	type Socket = tokio::net::UnixListener;
	fn lconfig(cfg: &Cfg) -> StreamConfig {
		cfg.stream()
	}
	async fn listen(cfg: &Cfg, dir: &Path) -> std::io::Result<(Listener<Self::Socket>, Addr)> {
		let p = dir.join("socket");
		Ok((Self::bind(cfg, &p).await?, Addr::Unix(p)))
	}
	async fn bind(cfg: &Cfg, path: &Path) -> std::io::Result<Listener<Self::Socket>> {
		Listener::bind(path, cfg.stream()).await
	}
	fn who(i: &fizyr_rpc::transport::UnixStreamInfo) -> Who {
		Who::Unix { uid: i.user_id(), gid: i.group_id(), pid: i.process_id() }
	}
	async fn connect(addr: &Addr, cfg: &Cfg) -> std::io::Result<(PeerHandle<Self::B>, Who)> {
		let Addr::Unix(p) = addr else { unreachable!() };
		let (h, i) = UnixStreamPeer::connect(p, cfg.stream()).await?;
		Ok((h, <Self as LKit>::who(&i)))
	}
	fn raw(addr: &Addr) -> std::io::Result<OwnedFd> {
		let Addr::Unix(p) = addr else { unreachable!() };
		unix_connect(p, libc::SOCK_STREAM)
	}
}

impl LKit for Seq {
	type Socket = tokio_seqpacket::UnixSeqpacketListener;
	fn lconfig(cfg: &Cfg) -> UnixConfig {
		cfg.unix()
	}
	async fn listen(cfg: &Cfg, dir: &Path) -> std::io::Result<(Listener<Self::Socket>, Addr)> {
		let p = dir.join("socket");
		Ok((Self::bind(cfg, &p).await?, Addr::Unix(p)))
	}
	async fn bind(cfg: &Cfg, path: &Path) -> std::io::Result<Listener<Self::Socket>> {
		Listener::bind(path, cfg.unix()).await
	}
	fn who(i: &fizyr_rpc::transport::UnixSeqpacketInfo) -> Who {
		Who::Unix { uid: i.user_id(), gid: i.group_id(), pid: i.process_id() }
	}
	async fn connect(addr: &Addr, cfg: &Cfg) -> std::io::Result<(PeerHandle<Self::B>, Who)> {
		let Addr::Unix(p) = addr else { unreachable!() };
		let (h, i) = UnixSeqpacketPeer::connect(p, cfg.unix()).await?;
		Ok((h, <Self as LKit>::who(&i)))
	}
	fn raw(addr: &Addr) -> std::io::Result<OwnedFd> {
		let Addr::Unix(p) = addr else { unreachable!() };
		unix_connect(p, libc::SOCK_SEQPACKET)
	}
}

fn sockaddr(path: &Path) -> (libc::sockaddr_un, u32) {
	use std::os::unix::ffi::OsStrExt;
	unsafe {
		let mut a: libc::sockaddr_un = std::mem::zeroed();
		a.sun_family = libc::AF_UNIX as _;
		let b = path.as_os_str().as_bytes();
		for (i, c) in b.iter().enumerate().take(107) {
			a.sun_path[i] = *c as _;
		}
		(a, (2 + b.len().min(107) + 1) as u32)
	}
}

fn unix_connect(path: &Path, ty: i32) -> std::io::Result<OwnedFd> {
	unsafe {
		let fd = libc::socket(libc::AF_UNIX, ty | libc::SOCK_CLOEXEC, 0);
		assert!(fd >= 0);
		let fd = OwnedFd::from_raw_fd(fd);
		let (a, n) = sockaddr(path);
		if libc::connect(fd.as_raw_fd(), &a as *const _ as *const _, n) != 0 {
			return Err(std::io::Error::last_os_error());
		}
		Ok(fd)
	}
}

fn unix_bind(path: &Path, ty: i32, listen: bool) -> OwnedFd {
	unsafe {
		let fd = libc::socket(libc::AF_UNIX, ty | libc::SOCK_CLOEXEC, 0);
		assert!(fd >= 0);
		let fd = OwnedFd::from_raw_fd(fd);
		let (a, n) = sockaddr(path);
		assert!(libc::bind(fd.as_raw_fd(), &a as *const _ as *const _, n) == 0, "bind: {}", std::io::Error::last_os_error());
		if listen {
			libc::listen(fd.as_raw_fd(), 10);
		}
		fd
	}
}

fn reset_on_close(fd: &OwnedFd) {
	let l = libc::linger { l_onoff: 1, l_linger: 0 };
	unsafe { libc::setsockopt(fd.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32) };
}

/// What the server tasks saw.
#[derive(Default)]
struct Server {
	infos: Mutex<Vec<Who>>,
	/// Connection number => client uids it saw.
	seen: Mutex<BTreeMap<usize, Vec<u64>>>,
	hellos: Mutex<Vec<(Who, Vec<u8>)>>,
	started: AtomicUsize,
	finished: AtomicUsize,
	panicked: AtomicUsize,
}

struct Finished(Arc<Server>);

impl Drop for Finished {
	fn drop(&mut self) {
		self.0.finished.fetch_add(1, SeqCst);
	}
}

const ECHO: i32 = 1;
const PANIC: i32 = 66;
const DROP: i32 = 67;
const HELLO: i32 = 68;
const STALL: i32 = 69;

async fn serve<K: LKit>(srv: Arc<Server>, n: usize, who: Who, mut peer: PeerHandle<K::B>)
where
	K::B: Send + Sync,
{
	let _fin = Finished(srv.clone());
	loop {
		match peer.recv_message().await {
			Ok(ReceivedMessage::Request(req, body)) => {
				let (data, _) = K::into_parts(body);
				if let Some(uid) = uid_of(&data) {
					srv.seen.lock().unwrap().entry(n).or_default().push(uid >> 16);
				}
				match req.service_id() {
					PANIC => {
						srv.panicked.fetch_add(1, SeqCst);
						// No message on the console: the hook of the harness collects it.
						panic!("the task of a client panics");
					}
					DROP => return,
					HELLO => srv.hellos.lock().unwrap().push((who.clone(), data.clone())),
					STALL => {
						// Never reads again, until the peer is gone.
						let w = peer.close_handle();
						let _ = req.send_response(ECHO, K::body(data)).await;
						let _keep = peer;
						tokio::time::sleep(Duration::from_millis(30)).await;
						drop(w);
						return;
					}
					_ => {}
				}
				let _ = req.send_response(req.service_id(), K::body(data)).await;
			}
			Ok(ReceivedMessage::Stream(_)) => {}
			Err(e) if e.is_connection_aborted() => return,
			Err(_) => {}
		}
	}
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Client {
	Good,
	/// Works before and after everybody else.
	Long,
	Disconnect,
	Reset,
	Silent,
	Garbage,
	Partial,
	Oversize,
	Panic,
	Drop,
	Stall,
}

async fn echo<K: LKit>(h: &PeerHandle<K::B>, uid: u64, n: usize) -> Result<(), String>
where
	K::B: Send + Sync,
{
	let body = tagged_body(uid, n);
	let mut r = h.send_request(ECHO, K::body(body.clone())).await.map_err(|e| format!("send_request: {e}"))?;
	let m = r.recv_response().await.map_err(|e| format!("recv_response: {e}"))?;
	if m.header.service_id != ECHO || K::data(&m.body) != body {
		return Err(format!("wrong answer: service {} and {} bytes instead of {}", m.header.service_id, K::data(&m.body).len(), body.len()));
	}
	Ok(())
}

async fn limit<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> {
	tokio::time::timeout(LIMIT, f).await.map_err(|_| format!("{what} does not complete"))
}

async fn case<K: LKit>(seed: u64, multi: bool) -> Obs
where
	K::B: Send + Sync,
{
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let dir = Scratch::new();
	let mut cfg = Cfg::default();
	cfg.endian = *rng.pick(&[ECfg::Little, ECfg::Big]);
	cfg.max_read = *rng.pick(&[64, 1000, 8192]);
	let (mut listener, addr) = match K::listen(&cfg, &dir.0).await {
		Ok(x) => x,
		Err(e) => {
			obs.violate("listen", format!("{}: binding a fresh address fails: {e}", K::NAME));
			return obs;
		}
	};
	let srv: Arc<Server> = Default::default();
	let mut clients: Vec<Client> = (0..rng.range(3, 20))
		.map(|_| {
			use Client::*;
			*rng.pick(&[Good, Good, Good, Long, Disconnect, Disconnect, Reset, Silent, Garbage, Partial, Oversize, Panic, Drop, Stall])
		})
		.collect();
	clients.push(Client::Good);
	let early = rng.chance(1, 2);
	// Many more that stay connected until the end.
	let crowd = if rng.chance(1, 25) { rng.range(30, 300) } else { 0 };
	obs.sample = format!("{} multi={multi} early={early} {clients:?} crowd={crowd}", K::NAME);
	obs.signature = Some(hash_bytes(obs.sample.as_bytes()));
	let problems: Arc<Mutex<Vec<(String, String)>>> = Default::default();
	let locals: Arc<Mutex<Vec<(Client, Who)>>> = Default::default();
	let connected = Arc::new(AtomicUsize::new(0));
	let optional = Arc::new(AtomicUsize::new(0));

	// Clients that are already gone, or at least waiting, when the listener starts.
	let mut kept: Vec<OwnedFd> = vec![];
	let mut rest = vec![];
	for c in clients.iter().copied() {
		let is_raw = matches!(c, Client::Disconnect | Client::Reset | Client::Silent | Client::Garbage | Client::Partial | Client::Oversize);
		if !is_raw || !(early && rng.chance(2, 3)) {
			rest.push(c);
			continue;
		}
		match K::raw(&addr) {
			Ok(fd) => act::<K>(c, fd, &mut rng, &cfg, &mut kept, &connected, &optional),
			Err(e) => problems.lock().unwrap().push(("connect".into(), format!("a client can not connect: {e}"))),
		}
	}

	for _ in 0..crowd {
		let i = rng.below(rest.len() + 1);
		rest.insert(i, Client::Long);
	}
	// The backlog of the socket is limited.
	let connecting = Arc::new(tokio::sync::Semaphore::new(20));
	let srv2 = srv.clone();
	let listening = tokio::spawn(async move {
		let r = listener
			.run(|peer, info| {
				let srv = srv2.clone();
				let n = srv.started.fetch_add(1, SeqCst);
				let who = K::who(&info);
				srv.infos.lock().unwrap().push(who.clone());
				serve::<K>(srv, n, who, peer)
			})
			.await;
		format!("{r:?}")
	});

	let gate = Arc::new(tokio::sync::Semaphore::new(0));
	// Every client holds one until it is done, or only waits for the gate.
	let busy = Arc::new(());
	let mut tasks = vec![];
	for (i, c) in rest.iter().copied().enumerate() {
		let delay = rng.below(4) as u64;
		let mut rng = rng.fork();
		let (addr, cfg, problems, locals, connected, gate, optional, connecting) =
			(addr.clone(), cfg.clone(), problems.clone(), locals.clone(), connected.clone(), gate.clone(), optional.clone(), connecting.clone());
		let mut busy = Some(busy.clone());
		tasks.push(tokio::task::spawn_local(async move {
			for _ in 0..delay {
				tokio::task::yield_now().await;
			}
			if delay == 3 {
				tokio::time::sleep(Duration::from_micros(rng.below(2000) as u64)).await;
			}
			let mut kept = vec![];
			let uid = (i as u64 + 1) << 16;
			let fail = |key: &str, d: String| problems.lock().unwrap().push((key.to_string(), format!("client {i} ({c:?}): {d}")));
			match c {
				Client::Disconnect | Client::Reset | Client::Silent | Client::Garbage | Client::Partial | Client::Oversize => {
					match K::raw(&addr) {
						Ok(fd) => act::<K>(c, fd, &mut rng, &cfg, &mut kept, &connected, &optional),
						Err(e) => fail("connect", format!("can not connect: {e}")),
					}
				}
				_ => {
					let turn = connecting.acquire().await;
					let (h, who) = match limit("connecting", K::connect(&addr, &cfg)).await {
						Ok(Ok(x)) => x,
						Ok(Err(e)) => return fail("connect", format!("can not connect: {e}")),
						Err(e) => return fail("connect", e),
					};
					connected.fetch_add(1, SeqCst);
					locals.lock().unwrap().push((c, who));
					for k in 0..rng.range(1, 4) {
						let n = if rng.chance(1, 3) { cfg.max_read as usize } else { 8 + rng.below(50) };
						match limit("an echo", echo::<K>(&h, uid + k as u64, n)).await {
							Ok(Ok(())) => {}
							Ok(Err(e)) | Err(e) => return fail("echo", e),
						}
					}
					drop(turn);
					let svc = match c {
						Client::Panic => PANIC,
						Client::Drop => DROP,
						Client::Stall => STALL,
						_ => 0,
					};
					if svc != 0 {
						if let Ok(mut r) = h.send_request(svc, K::body(tagged_body(uid, 8))).await {
							match limit("the response of a dead task", r.recv_response()).await {
								Ok(Ok(_)) if svc != STALL => fail("ghost", "a response from a task that panicked or returned".into()),
								Ok(_) => {}
								Err(e) => fail("hang", e),
							}
						}
					}
					if c == Client::Long {
						busy.take();
						let _ = gate.acquire().await;
						for k in 0..2 {
							match limit("an echo", echo::<K>(&h, uid + 100 + k, 20)).await {
								Ok(Ok(())) => {}
								Ok(Err(e)) | Err(e) => return fail("long", format!("connection disturbed: {e}")),
							}
						}
					}
				}
			}
			// Silent clients stay until the others are done.
			busy.take();
			if !kept.is_empty() {
				let _ = gate.acquire().await;
			}
		}));
	}
	// Wait for the short clients: they all work while the silent ones are connected.
	let waited = limit("clients", async {
		while Arc::strong_count(&busy) > 1 {
			tokio::time::sleep(Duration::from_micros(100)).await;
		}
	});
	if let Err(e) = waited.await {
		problems.lock().unwrap().push(("hang".into(), e));
	}
	// A last one, after everything that happened.
	let last = async {
		let (h, who) = K::connect(&addr, &cfg).await.map_err(|e| format!("can not connect: {e}"))?;
		connected.fetch_add(1, SeqCst);
		locals.lock().unwrap().push((Client::Good, who));
		echo::<K>(&h, 0xffff << 16, 30).await
	};
	match limit("the last client", last).await {
		Ok(Ok(())) => {}
		Ok(Err(e)) | Err(e) => problems.lock().unwrap().push(("last".into(), format!("a client that connects afterwards is not served: {e}"))),
	}
	if listening.is_finished() {
		let r = listening.await.unwrap_or_else(|e| format!("{e}"));
		problems.lock().unwrap().insert(0, ("listener-stopped".into(), format!("run() returned {r}")));
	} else {
		// The connections are independent of the listener too.
		if rng.chance(1, 2) {
			listening.abort();
		}
		gate.add_permits(1000);
		for t in tasks {
			let _ = limit("client", async {
				while !t.is_finished() {
					tokio::time::sleep(Duration::from_micros(100)).await;
				}
			})
			.await;
		}
		drop(kept);
		if obs.violations.is_empty() && problems.lock().unwrap().is_empty() {
			// All clients are gone, so all server tasks end.
			let t0 = std::time::Instant::now();
			while srv.finished.load(SeqCst) != srv.started.load(SeqCst) && t0.elapsed() < LIMIT {
				tokio::time::sleep(Duration::from_micros(200)).await;
			}
			if srv.finished.load(SeqCst) != srv.started.load(SeqCst) {
				obs.violate("task-hang", format!("{} of {} server tasks never saw their client disconnect", srv.started.load(SeqCst) - srv.finished.load(SeqCst), srv.started.load(SeqCst)));
			}
			let (started, connected, optional) = (srv.started.load(SeqCst), connected.load(SeqCst), optional.load(SeqCst));
			if started < connected || started > connected + optional {
				obs.violate("count", format!("{connected} connections (and {optional} reset ones) were handed out as {started}"));
			}
			let infos = srv.infos.lock().unwrap().clone();
			check_infos(&mut obs, &infos, &locals.lock().unwrap(), &addr, optional);
			// Every connection sees only its own client.
			let mut owner = BTreeMap::new();
			for (conn, uids) in srv.seen.lock().unwrap().iter() {
				for u in uids {
					if *owner.entry(*u).or_insert(*conn) != *conn || uids.iter().any(|v| v != u) {
						obs.violate("crosstalk", format!("requests of client {u} arrived on several connections, or several clients on connection {conn}"));
					}
				}
			}
			obs.count("connections", started as u64);
			obs.count("crowds", (crowd > 0) as u64);
			obs.counts.entry("max_open_connections".into()).and_modify(|v| *v = (*v).max(crowd as u64)).or_insert(crowd as u64);
			obs.count("task_panics", srv.panicked.load(SeqCst) as u64);
			obs.count("reset_before_accept", (connected + optional - started) as u64);
		}
		listening.abort();
	}
	for c in &clients {
		obs.count(&format!("client_{c:?}"), 1);
	}
	for (k, d) in problems.lock().unwrap().iter() {
		obs.violate(k.clone(), format!("{}: {d}; clients {clients:?}", K::NAME));
	}
	obs
}

/// What a raw client does.
fn act<K: Kit>(c: Client, fd: OwnedFd, rng: &mut Rng, cfg: &Cfg, kept: &mut Vec<OwnedFd>, connected: &AtomicUsize, optional: &AtomicUsize) {
	if c == Client::Reset && K::TCP {
		optional.fetch_add(1, SeqCst);
	} else {
		connected.fetch_add(1, SeqCst);
	}
	let ordinary = Frame::new(rng.below(5) as u32, rng.u32(), rng.u32() as i32, vec![1; 6]).encode(cfg.end(), K::DATAGRAM);
	match c {
		Client::Disconnect => {}
		Client::Reset => reset_on_close(&fd),
		Client::Silent => kept.push(fd),
		Client::Garbage => {
			let n = 1 + rng.below(300);
			let _ = sendmsg_raw(fd.as_raw_fd(), &rng.bytes(n), &[]);
			if rng.chance(1, 2) {
				kept.push(fd);
			}
		}
		Client::Partial => {
			let n = rng.below(ordinary.len());
			let _ = sendmsg_raw(fd.as_raw_fd(), &ordinary[..n], &[]);
			if rng.chance(1, 2) {
				kept.push(fd);
			}
		}
		Client::Oversize => {
			let f = Frame::new(0, 1, 1, vec![0; cfg.max_read as usize + 1]);
			let _ = sendmsg_raw(fd.as_raw_fd(), &f.encode(cfg.end(), K::DATAGRAM), &[]);
			if rng.chance(1, 2) {
				kept.push(fd);
			}
		}
		_ => unreachable!(),
	}
}

fn check_infos(obs: &mut Obs, infos: &[Who], locals: &[(Client, Who)], addr: &Addr, optional: usize) {
	match addr {
		Addr::Tcp(a) => {
			let _ = optional;
			let mut remotes: Vec<SocketAddr> = vec![];
			for i in infos {
				let Who::Tcp { local, remote } = i else { unreachable!() };
				if local != a {
					obs.violate("address", format!("the local address of a connection is {local} instead of {a}"));
				}
				if remotes.contains(remote) {
					obs.violate("twice", format!("the connection of {remote} was handed out twice"));
				}
				remotes.push(*remote);
			}
			for (c, w) in locals {
				let Who::Tcp { local, remote } = w else { unreachable!() };
				if remote != a {
					obs.violate("address", format!("client: the remote address is {remote} instead of {a}"));
				}
				if !remotes.contains(local) {
					obs.violate("address", format!("no connection was handed out with the address {local} of a {c:?} client: {remotes:?}"));
				}
			}
		}
		Addr::Unix(_) => {
			let me = unsafe { Who::Unix { uid: libc::getuid(), gid: libc::getgid(), pid: Some(libc::getpid()) } };
			for i in infos.iter().chain(locals.iter().map(|(_, w)| w)) {
				if *i != me {
					obs.violate("credentials", format!("credentials {i:?} instead of {me:?}"));
				}
			}
		}
	}
}

fn rt(multi: bool) -> tokio::runtime::Runtime {
	if multi {
		tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
	} else {
		tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
	}
}

fn with_rt<F: std::future::Future<Output = Obs>>(seed: u64, f: impl FnOnce(bool) -> F) -> Obs {
	let multi = seed & 8 != 0;
	let rt = rt(multi);
	let local = tokio::task::LocalSet::new();
	let obs = local.block_on(&rt, f(multi));
	drop(local);
	rt.shutdown_timeout(Duration::from_secs(5));
	obs
}

/// The other process of `creds`: connect, tell who we are, wait for the response.
pub fn credentials_child(kind: &str, path: &str) {
	let fd = unix_connect(Path::new(path), if kind == "seq" { libc::SOCK_SEQPACKET } else { libc::SOCK_STREAM }).expect("connect");
	let me = unsafe { format!("{}:{}:{}", libc::getuid(), libc::getgid(), libc::getpid()) };
	let f = Frame::new(0, 1, HELLO, me.into_bytes()).encode(End::Little, kind == "seq");
	sendmsg_raw(fd.as_raw_fd(), &f, &[]).expect("send");
	let _ = recvmsg_raw(fd.as_raw_fd(), 1000);
}

/// Clients that are other processes of other users.
async fn credentials<K: LKit>(seed: u64) -> Obs
where
	K::B: Send + Sync,
{
	use std::os::unix::fs::PermissionsExt;
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let dir = Scratch::new();
	let cfg = Cfg::default();
	std::fs::set_permissions(&dir.0, std::fs::Permissions::from_mode(0o777)).unwrap();
	let (mut listener, addr) = match K::listen(&cfg, &dir.0).await {
		Ok(x) => x,
		Err(e) => {
			obs.violate("listen", format!("{e}"));
			return obs;
		}
	};
	let Addr::Unix(path) = addr else { unreachable!() };
	std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o777)).unwrap();
	// The users can not necessarily reach our own executable.
	let exe = dir.0.join("client");
	std::fs::copy("/proc/self/exe", &exe).unwrap();
	std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap();
	let srv: Arc<Server> = Default::default();
	let srv2 = srv.clone();
	let listening = tokio::spawn(async move {
		let _ = listener
			.run(|peer, info| {
				let srv = srv2.clone();
				let n = srv.started.fetch_add(1, SeqCst);
				serve::<K>(srv, n, K::who(&info), peer)
			})
			.await;
	});
	let root = unsafe { libc::getuid() } == 0;
	let mut children = vec![];
	let mut expected = vec![];
	for _ in 0..rng.range(2, 5) {
		use std::os::unix::process::CommandExt;
		let (uid, gid) = if root { (60000 + rng.below(1000) as u32, 50000 + rng.below(1000) as u32) } else { unsafe { (libc::getuid(), libc::getgid()) } };
		let mut c = std::process::Command::new(&exe);
		c.arg("__client").arg(if K::DATAGRAM { "seq" } else { "stream" }).arg(&path).current_dir("/").stdin(std::process::Stdio::null());
		if root {
			c.uid(uid).gid(gid);
		}
		// Another thread may be starting a process while the executable was still open for writing.
		let mut spawned = c.spawn();
		for _ in 0..200 {
			if !matches!(&spawned, Err(e) if e.raw_os_error() == Some(libc::ETXTBSY)) {
				break;
			}
			tokio::time::sleep(Duration::from_millis(5)).await;
			spawned = c.spawn();
		}
		match spawned {
			Ok(c) => {
				expected.push((uid, gid, c.id() as i32));
				children.push(c);
			}
			Err(e) => {
				obs.inconclusive = Some(format!("can not start a client process: {e}"));
				return obs;
			}
		}
	}
	for mut c in children {
		let r = limit("client process", async {
			loop {
				match c.try_wait() {
					Ok(Some(s)) => return s.success(),
					_ => tokio::time::sleep(Duration::from_millis(1)).await,
				}
			}
		})
		.await;
		match r {
			Ok(true) => {}
			Ok(false) => obs.inconclusive = Some("a client process failed".into()),
			Err(e) => {
				let _ = c.kill();
				obs.violate("client-hang", e);
			}
		}
	}
	listening.abort();
	if obs.inconclusive.is_some() {
		return obs;
	}
	let hellos = srv.hellos.lock().unwrap().clone();
	for (uid, gid, pid) in &expected {
		let text = format!("{uid}:{gid}:{pid}");
		let Some((who, _)) = hellos.iter().find(|(_, b)| *b == text.as_bytes()) else {
			obs.violate("client-lost", format!("the process {text} was not served"));
			continue;
		};
		let want = Who::Unix { uid: *uid, gid: *gid, pid: Some(*pid) };
		if *who != want {
			obs.violate("credentials", format!("{}: client {want:?} was announced as {who:?}", K::NAME));
		}
		obs.count("client_processes", 1);
	}
	obs.sample = format!("{} {expected:?}", K::NAME);
	obs.signature = Some(hash_bytes(obs.sample.as_bytes()));
	obs
}

fn repo_panics(rep: &Report) {
	let mut obs = Obs::default();
	for p in crate::sim::ALL_PANICS.lock().unwrap().iter() {
		if in_repo(&p.location) {
			obs.violate("panic", format!("{} panicked at {}: {}", p.task, p.location, p.message));
		}
	}
	if !obs.violations.is_empty() {
		rep.add("panics", 0, obs);
	}
}

pub fn run_c19(rep: &Report) {
	rep.rule("listener: real listeners on current_thread and 2-worker runtimes with 4 to 20 clients (good, long-lived, disconnecting, resetting, silent, garbage, partial, oversize, or with a server task that panics, returns or stalls), some of them before the listener runs, in some cases with up to 300 more connections that stay open; counts, addresses, credentials and echoes are compared; distinct = client mixes");
	rep.assume("an operation that takes more than 25 s counts as a hang");
	let t = rep.settings.thorough();
	let n = if t { 20000 } else { 1200 };
	let secs = if t { 250.0 } else { 40.0 };
	rep.run_cases("listen-tcp", n, secs, 16, |s| with_rt(s, |m| case::<Tcp>(s, m)));
	rep.run_cases("listen-unix-stream", n, secs, 16, |s| with_rt(s, |m| case::<UnixS>(s, m)));
	rep.run_cases("listen-seqpacket", n, secs, 16, |s| with_rt(s, |m| case::<Seq>(s, m)));
	let c = if t { 300 } else { 24 };
	rep.run_cases("credentials-unix-stream", c, secs, 4, |s| with_rt(s, |_| credentials::<UnixS>(s)));
	rep.run_cases("credentials-seqpacket", c, secs, 4, |s| with_rt(s, |_| credentials::<Seq>(s)));
	repo_panics(rep);
	rep.require("connections", 5000);
	rep.require("client_Reset", 300);
	rep.require("task_panics", 300);
	rep.require("crowds", 40);
}

/// C20

#[derive(Debug, Clone, Copy, PartialEq)]
enum At {
	Nothing,
	StaleStream,
	StaleSeqpacket,
	StaleDatagram,
	NeverListened,
	LiveStream,
	LiveOwn,
	File,
	EmptyFile,
	Dir,
	FullDir,
	LinkFile,
	LinkDir,
	LinkFullDir,
	LinkDangling,
	LinkSelf,
	LinkFifo,
	Fifo,
	MissingParent,
	FileParent,
	TooLong,
	Nul,
}

const ATS: [At; 22] = [
	At::Nothing,
	At::StaleStream,
	At::StaleSeqpacket,
	At::StaleDatagram,
	At::NeverListened,
	At::LiveStream,
	At::LiveOwn,
	At::File,
	At::EmptyFile,
	At::Dir,
	At::FullDir,
	At::LinkFile,
	At::LinkDir,
	At::LinkFullDir,
	At::LinkDangling,
	At::LinkSelf,
	At::LinkFifo,
	At::Fifo,
	At::MissingParent,
	At::FileParent,
	At::TooLong,
	At::Nul,
];

/// Everything below a directory: path => description (type, inode, mode, size, contents or target).
fn snapshot(dir: &Path, out: &mut BTreeMap<PathBuf, String>) {
	use std::os::unix::fs::{FileTypeExt, MetadataExt};
	let Ok(entries) = std::fs::read_dir(dir) else { return };
	for e in entries.flatten() {
		let p = e.path();
		let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
		let ty = m.file_type();
		let what = if ty.is_socket() {
			"socket".to_string()
		} else if ty.is_dir() {
			"dir".to_string()
		} else if ty.is_fifo() {
			"fifo".to_string()
		} else if ty.is_symlink() {
			format!("link to {:?}", std::fs::read_link(&p))
		} else {
			format!("file {:?}", std::fs::read(&p))
		};
		out.insert(p.clone(), format!("{what} inode {} mode {:o} owner {}:{} links {} modified {}.{}", m.ino(), m.mode(), m.uid(), m.gid(), m.nlink(), m.mtime(), m.mtime_nsec()));
		if ty.is_dir() {
			snapshot(&p, out);
		}
	}
}

/// Create something that is not a socket and not involved.
fn clutter(rng: &mut Rng, dir: &Path) {
	for i in 0..rng.below(4) {
		let p = dir.join(format!("other{i}"));
		match rng.below(5) {
			0 => std::fs::write(&p, rng.bytes(20)).unwrap(),
			1 => std::fs::create_dir(&p).unwrap(),
			2 => drop(unix_bind(&p, libc::SOCK_STREAM, true)),
			3 => std::os::unix::fs::symlink("x", &p).unwrap(),
			_ => fifo(&p),
		}
	}
}

fn fifo(p: &Path) {
	use std::os::unix::ffi::OsStrExt;
	let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
	assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o644) } == 0);
}

async fn bind_case<K: LKit>(seed: u64, at: At) -> Obs
where
	K::B: Send + Sync,
{
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let dir = Scratch::new();
	let cfg = Cfg::default();
	let mut base = dir.0.clone();
	// The directory itself may be reached in different ways.
	match rng.below(4) {
		0 => {
			base = dir.0.join("real");
			std::fs::create_dir(&base).unwrap();
			std::os::unix::fs::symlink("real", dir.0.join("via")).unwrap();
			base = dir.0.join("via");
		}
		1 => {
			std::fs::create_dir(dir.0.join("sub")).unwrap();
			base = dir.0.join("sub/../sub");
		}
		_ => {}
	}
	clutter(&mut rng, &base);
	let name = rng.pick(&["s", "socket", "name with space", "\u{fc}nic\u{f6}de", ".hidden"]).to_string();
	let mut path = base.join(&name);
	let mut live = vec![];
	let mut own = None;
	match at {
		At::Nothing => {}
		At::StaleStream => drop(unix_bind(&path, libc::SOCK_STREAM, true)),
		At::StaleSeqpacket => drop(unix_bind(&path, libc::SOCK_SEQPACKET, true)),
		At::StaleDatagram => drop(unix_bind(&path, libc::SOCK_DGRAM, false)),
		At::NeverListened => drop(unix_bind(&path, libc::SOCK_STREAM, false)),
		At::LiveStream => live.push(unix_bind(&path, libc::SOCK_STREAM, true)),
		At::LiveOwn => own = K::bind(&cfg, &path).await.ok(),
		At::File => std::fs::write(&path, rng.bytes(100)).unwrap(),
		At::EmptyFile => std::fs::write(&path, b"").unwrap(),
		At::Dir => std::fs::create_dir(&path).unwrap(),
		At::FullDir => {
			std::fs::create_dir(&path).unwrap();
			std::fs::write(path.join("f"), b"contents").unwrap();
			drop(unix_bind(&path.join("s"), libc::SOCK_STREAM, true));
		}
		At::LinkFile => {
			std::fs::write(dir.0.join("target"), b"precious").unwrap();
			std::os::unix::fs::symlink(dir.0.join("target"), &path).unwrap();
		}
		At::LinkDir | At::LinkFullDir => {
			std::fs::create_dir(dir.0.join("target")).unwrap();
			if at == At::LinkFullDir {
				std::fs::write(dir.0.join("target/f"), b"contents").unwrap();
				drop(unix_bind(&dir.0.join("target").join(&name), libc::SOCK_STREAM, true));
			}
			std::os::unix::fs::symlink(dir.0.join("target"), &path).unwrap();
		}
		At::LinkDangling => std::os::unix::fs::symlink(dir.0.join("missing"), &path).unwrap(),
		At::LinkSelf => std::os::unix::fs::symlink(&path, &path).unwrap(),
		At::LinkFifo => {
			fifo(&dir.0.join("target"));
			std::os::unix::fs::symlink(dir.0.join("target"), &path).unwrap();
		}
		At::Fifo => fifo(&path),
		At::MissingParent => path = base.join("missing/socket"),
		At::FileParent => {
			std::fs::write(base.join("parent"), b"contents").unwrap();
			path = base.join("parent/socket");
		}
		At::TooLong => {
			let long = "l".repeat(120);
			path = base.join(&long);
			// Even with a socket there (made through a shorter path).
			if rng.chance(1, 2) {
				drop(unix_bind(&base.join("short"), libc::SOCK_STREAM, true));
				std::fs::rename(base.join("short"), &path).unwrap();
				// A socket at a path that can not be bound may be removed or not.
				std::fs::remove_file(&path).unwrap();
			}
		}
		At::Nul => path = base.join("a\0b"),
	}
	obs.sample = format!("{} {at:?} at {path:?}", K::NAME);
	obs.signature = Some(hash_bytes(format!("{} {at:?} {name} {}", K::NAME, base.strip_prefix(&dir.0).unwrap().display()).as_bytes()));
	let works = matches!(at, At::Nothing | At::StaleStream | At::StaleSeqpacket | At::StaleDatagram | At::NeverListened | At::LiveStream | At::LiveOwn);
	let mut before = BTreeMap::new();
	snapshot(&dir.0, &mut before);
	let r = match limit("bind", K::bind(&cfg, &path)).await {
		Ok(r) => r,
		Err(e) => {
			obs.violate("hang", format!("{}: {e}", obs.sample));
			return obs;
		}
	};
	let mut after = BTreeMap::new();
	snapshot(&dir.0, &mut after);
	let canon = path.parent().and_then(|p| p.canonicalize().ok()).and_then(|p| Some(p.join(path.file_name()?)));
	let sample = obs.sample.clone();
	obs.count("binds", 1);
	// Directories that contain the path may be modified by a successful bind.
	let strip = |m: &BTreeMap<PathBuf, String>, works: bool| -> BTreeMap<PathBuf, String> {
		m.iter()
			.filter(|(p, _)| !works || (canon.as_deref() != Some(p) && p.canonicalize().ok() != canon))
			.map(|(p, d)| {
				let d = if works && p.is_dir() { d.split(" modified").next().unwrap().to_string() } else { d.clone() };
				(p.clone(), d)
			})
			.collect()
	};
	if at == At::Nul && K::DATAGRAM && r.is_ok() {
		obs.violate("nul-path-bound", format!("{sample}: bind succeeds (at the path before the NUL)"));
		return obs;
	}
	match (&r, works) {
		(Err(e), true) => obs.violate("bind-failed", format!("{sample}: bind fails: {e}")),
		(Ok(_), false) => obs.violate("bind-replaced", format!("{sample}: bind succeeds")),
		_ => {}
	}
	let (b, a) = (strip(&before, works), strip(&after, works));
	if a != b {
		let diff: Vec<String> = b.iter().filter(|(p, d)| a.get(*p) != Some(d)).map(|(p, d)| format!("{p:?} was {d}, is {:?}", a.get(p))).chain(a.keys().filter(|p| !b.contains_key(*p)).map(|p| format!("new {p:?}"))).collect();
		obs.violate("touched", format!("{sample}: the file system changed: {}", diff.join("; ")));
	}
	if let Ok(mut listener) = r {
		obs.count("bound", 1);
		let run = tokio::spawn(async move {
			let srv: Arc<Server> = Default::default();
			let _ = listener
				.run(|peer, info| {
					let n = srv.started.fetch_add(1, SeqCst);
					serve::<K>(srv.clone(), n, K::who(&info), peer)
				})
				.await;
		});
		if obs.violations.is_empty() {
			let served = limit("a client", async {
				for i in 0..2 {
					let (h, _) = K::connect(&Addr::Unix(path.clone()), &cfg).await.map_err(|e| format!("can not connect: {e}"))?;
					echo::<K>(&h, i << 16, 20).await?;
				}
				Ok::<(), String>(())
			})
			.await;
			match served {
				Ok(Ok(())) => {}
				Ok(Err(e)) | Err(e) => obs.violate("not-served", format!("{sample}: bind succeeds, but a client is not served: {e}")),
			}
		}
		run.abort();
	} else {
		obs.count("refused", 1);
	}
	drop((live, own));
	obs
}

pub fn run_c20(rep: &Report) {
	rep.rule("bind: 22 kinds of things at the path, reached through plain, symbolic and dotted directories among other entries; complete snapshots of the directory tree before and after (type, inode, mode, times, contents), then real clients; distinct = kind, name and way");
	let t = rep.settings.thorough();
	let n = if t { 40000 } else { 3000 };
	let secs = if t { 300.0 } else { 40.0 };
	rep.run_cases("bind-unix-stream", n, secs, 8, |s| with_rt(0, |_| bind_case::<UnixS>(s, ATS[s as usize % ATS.len()])));
	rep.run_cases("bind-seqpacket", n, secs, 8, |s| with_rt(0, |_| bind_case::<Seq>(s, ATS[s as usize % ATS.len()])));
	repo_panics(rep);
	rep.require("bound", 1000);
	rep.require("refused", 1000);
}
