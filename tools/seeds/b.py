U='src/transport/udp.rs'; M='src/transport/udp_monitor.rs'; C='src/packets/core.rs'; D='src/dp_types.rs'
PRE = '''
#![allow(dead_code, unused_imports)]
use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::transport::udp::{parse_response, TunnelingResponse, UdpClient};
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::time::{sleep, timeout, Instant};

/// a scripted KNXnet/IP device on the loopback network
struct Dev { s: UdpSocket, peer: Option<std::net::SocketAddr> }
impl Dev {
    async fn new() -> Self { Dev { s: UdpSocket::bind("127.0.0.1:0").await.unwrap(), peer: None } }
    fn addr(&self) -> String { self.s.local_addr().unwrap().to_string() }
    /// next frame within the time, None otherwise
    async fn get(&mut self, ms: u64) -> Option<Vec<u8>> {
        let mut b = vec![0; 300];
        let (n, p) = timeout(Duration::from_millis(ms), self.s.recv_from(&mut b)).await.ok()?.unwrap();
        self.peer = Some(p);
        b.truncate(n);
        Some(b)
    }
    /// next frame of the service, others are dropped
    async fn want(&mut self, code: u16, ms: u64) -> Option<Vec<u8>> {
        let end = Instant::now() + Duration::from_millis(ms);
        loop {
            let left = end.saturating_duration_since(Instant::now()).as_millis() as u64;
            let f = self.get(left.max(1)).await?;
            if f[2] == (code >> 8) as u8 && f[3] == code as u8 { return Some(f); }
        }
    }
    async fn put(&self, f: &[u8]) { self.s.send_to(f, self.peer.unwrap()).await.unwrap(); }
    /// answers a connect request
    async fn accept(&mut self, ch: u8, status: u8) {
        self.want(0x0205, 20000).await.expect("connect request");
        self.put(&[6, 0x10, 2, 6, 0, 0x14, ch, status, 8, 1, 127, 0, 0, 1, 0x0e, 0x57, 4, 4, 0x11, 0x05]).await;
    }
    async fn tunnel(&self, ch: u8, seq: u8, cemi: &[u8]) {
        let mut f = vec![6, 0x10, 4, 0x20, 0, 10 + cemi.len() as u8, 4, ch, seq, 0];
        f.extend_from_slice(cemi);
        self.put(&f).await;
    }
    async fn state(&self, ch: u8, status: u8) { self.put(&[6, 0x10, 2, 8, 0, 8, ch, status]).await; }
}
/// indication of a group value write
fn ind(dest: u16, v: u8) -> Vec<u8> { vec![0x29, 0, 0xbc, 0xe0, 0x11, 0x0b, (dest >> 8) as u8, dest as u8, 2, 0, 0x80, v] }
fn con(ctrl: u8) -> Vec<u8> { vec![0x2e, 0, ctrl, 0xe0, 0x11, 0x0b, 0x0a, 0x01, 1, 0, 0x81] }
async fn settle() { sleep(Duration::from_millis(200)).await; }
'''
def demo(body): return PRE + '''
#[tokio::main(flavor = "multi_thread", worker_threads = 2)]
async fn main() {
''' + body + '}\n'
SEEDS=[
dict(id='t01-ack-high-seq',property='C10',edits=[(U,"let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);","let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr % 255, 0);")],
 needs='a feature response with sequence number 255',breaks='its acknowledgement carries sequence number 0',
 demo=demo('''
    let mut d = Dev::new().await;
    let _m = UdpMonitor::connect(&d.addr()).await.unwrap();
    d.accept(7, 0).await;
    d.want(0x0424, 3000).await.expect("feature set");
    for seq in [0u8, 1, 254, 255] {
        d.put(&[6, 0x10, 4, 0x23, 0, 0x0d, 4, 7, seq, 0, 8, 0, 1]).await;
        let a = d.want(0x0421, 3000).await.expect("ack");
        assert_eq!(&a[6..10], &[4, 7, seq, 0], "ack of {}", seq);
    }
''')),
dict(id='t02-queue-full',property='C11',edits=[(U,"""                    match from_knx_tx.send(cemi).await {
                        Ok(_) => (),
                        Err(e) => whatever!""","""                    match from_knx_tx.try_send(cemi) {
                        Ok(_) | Err(mpsc::error::TrySendError::Full(_)) => (),
                        Err(e) => whatever!""")],
 needs='more than 100 telegrams waiting for a slow application',breaks='telegrams are lost when the queue is full although they were acknowledged',
 demo=demo('''
    let mut d = Dev::new().await;
    let m = UdpMonitor::connect(&d.addr()).await.unwrap();
    d.accept(7, 0).await;
    d.want(0x0424, 3000).await.expect("feature set");
    settle().await;
    for i in 0..120u8 {
        d.tunnel(7, i, &ind(0x0a01, i)).await;
        sleep(Duration::from_millis(2)).await;
    }
    settle().await;
    for i in 0..120u8 {
        let x = timeout(Duration::from_secs(5), m.next_msg()).await.expect("telegram lost").unwrap();
        assert_eq!(x.value, vec![i]);
    }
''')),
dict(id='t03-refused-disconnect',property='C13',edits=[(U,"""                        warn!("Unable to disconnect, status code {:?}", resp);
                    }""","""                        warn!("Unable to disconnect, status code {:?}", resp);
                        continue;
                    }""")],
 needs='a disconnect response with a non-zero status',breaks='the session task goes on with a session the device no longer knows',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = UdpClient::connect(d.addr()).await.unwrap();
    d.accept(7, 0).await;
    settle().await;
    let t = tokio::spawn(async move { c.disconnect().await.is_ok() });
    d.want(0x0209, 3000).await.expect("disconnect request");
    d.put(&[6, 0x10, 2, 0x0a, 0, 8, 7, 0x21]).await;
    assert!(timeout(Duration::from_secs(5), t).await.expect("task still runs").unwrap());
''')),
dict(id='t04-seq-wrap',property='C14',edits=[(M,"data.sequence_nr = data.sequence_nr.wrapping_add(1);","data.sequence_nr = data.sequence_nr.checked_add(1).unwrap_or(1);")],
 needs='256 requests in one session',breaks='number 0 is left out at wrap-around',
 demo=demo('''
    let mut d = Dev::new().await;
    let m = UdpMonitor::connect(&d.addr()).await.unwrap();
    d.accept(7, 0).await;
    let f = d.want(0x0424, 3000).await.expect("feature set");
    assert_eq!(f[8], 0);
    settle().await;
    let mut n = 1u8;
    for _ in 0..300 {
        m.write_group_address_value(KnxAddress::group_3_level(1, 2, 3), vec![1], true).await.unwrap();
        let f = d.want(0x0420, 3000).await.expect("request");
        assert_eq!(f[8], n);
        n = n.wrapping_add(1);
    }
''')),
dict(id='t05-no-session-send',property='C15',edits=[(M,"""            None => whatever!("Disconnected from knx device, NR"),""","""            None => {
                warn!("Disconnected from knx device, NR");
                Ok((0, 0))
            }""")],
 needs='a request while no session is up',breaks='a request is sent on channel 0 and reported as successful',
 demo=demo('''
    let mut d = Dev::new().await;
    let m = UdpMonitor::connect(&d.addr()).await.unwrap();
    d.want(0x0205, 3000).await.expect("connect request");
    assert!(m.solecitate_group_read(KnxAddress::group_3_level(1, 2, 3)).await.is_err());
    assert!(d.want(0x0420, 500).await.is_none());
''')),
dict(id='t06-refused-connect',property='C16',edits=[(U,"ensure_whatever!(connection_status == 0,","ensure_whatever!(connection_status & 0x20 == 0,")],
 needs='a connect response refused with one of the common error codes (0x01, 0x02, 0x04)',breaks='a refused connect attempt is stored as session',
 demo=demo('''
    let mut d = Dev::new().await;
    let m = UdpMonitor::connect(&d.addr()).await.unwrap();
    d.accept(7, 0x01).await;
    settle().await;
    assert!(!m.is_connected().await);
    assert!(d.want(0x0424, 500).await.is_none());
''')),
dict(id='t07-state-error',property='C17',edits=[(U,"                    if resp.status != 0 {\n                        warn!(\"Connection state response with error {}\"","                    if resp.status == 0x21 {\n                        warn!(\"Connection state response with error {}\"")],
 needs='a state response that reports a data connection or KNX connection error (0x26, 0x27)',breaks='the failed session is kept',
 demo=demo('''
    for status in [0x21u8, 0x26, 0x27] {
        let mut d = Dev::new().await;
        let _m = UdpMonitor::connect(&d.addr()).await.unwrap();
        d.accept(7, 0).await;
        d.want(0x0424, 3000).await.expect("feature set");
        settle().await;
        d.state(7, 0).await;
        assert!(d.want(0x0205, 500).await.is_none());
        d.state(7, status).await;
        assert!(d.want(0x0205, 5000).await.is_some(), "no new session after status {}", status);
    }
''')),
dict(id='t08-read-no-limit',property='C18',edits=[(U,"            match timeout(self.get_read_timeout(), rx.recv()).await {\n                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {\n                    let data_con = LDataCon::from_cemi(cemi);","            let limit = if confirmed { self.get_read_timeout() * u32::MAX } else { self.get_read_timeout() };\n            match timeout(limit, rx.recv()).await {\n                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {\n                    confirmed = true;\n                    let data_con = LDataCon::from_cemi(cemi);"),
   (U,"        loop {\n            match timeout(self.get_read_timeout()","        let mut confirmed = false;\n        loop {\n            match timeout(self.get_read_timeout()")][::-1],
 needs='a read that is confirmed but never answered',breaks='the read waits (practically) for ever once its request is confirmed',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = UdpClient::connect(d.addr()).await.unwrap();
    d.accept(7, 0).await;
    settle().await;
    let t = tokio::spawn(async move { c.read_group_address_value(KnxAddress::group_3_level(1, 2, 3)).await.is_err() });
    d.want(0x0420, 3000).await.expect("request");
    d.tunnel(7, 0, &con(0xbc)).await;
    assert!(timeout(Duration::from_secs(25), t).await.expect("read still waits").unwrap());
''')),
dict(id='t09-flush-drains',property='C19',edits=[(U,"""    pub async fn flush(&self) -> Result<(), Whatever> {
        Ok(())""","""    pub async fn flush(&self) -> Result<(), Whatever> {
        let transport = self.transport.lock().await;
        let mut old = [0; 100];
        while let Ok(Ok(count)) = timeout(Duration::from_millis(10), transport.socket.recv(&mut old)).await {
            debug!("Drop stale datagram {:02x?}", &old[..count]);
        }
        Ok(())""")],
 needs='a datagram that arrives during a flush and is read by it before the session task does',breaks='flush takes telegrams the session task should get',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = std::sync::Arc::new(UdpClient::connect(d.addr()).await.unwrap());
    d.accept(7, 0).await;
    settle().await;
    for i in 0..200u8 {
        let f = tokio::spawn({ let c = c.clone(); async move { c.flush().await.is_ok() } });
        sleep(Duration::from_millis(2)).await;
        d.tunnel(7, i, &con(0xbc)).await;
        let a = d.want(0x0421, 2000).await.expect("the telegram was not acknowledged");
        assert_eq!(a[8], i);
        assert!(f.await.unwrap());
        if i % 50 == 49 {
            // empty the queue
            let _ = timeout(Duration::from_millis(300), c.read_group_address_value(KnxAddress::group_3_level(1, 2, 3))).await;
        }
    }
''')),
dict(id='t10-read-unknown',property='C21',edits=[(U,"                Ok(Some(cemi)) => warn!(\"Unknown cEMI message code {:?}\", cemi.msg_code),\n                Ok(None) => whatever!(\"No more data","                Ok(Some(cemi)) => return Ok(cemi.service_info),\n                Ok(None) => whatever!(\"No more data")],
 needs='a bus monitor indication or another unknown message during a read',breaks='its octets are returned as the value of the group address',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = UdpClient::connect(d.addr()).await.unwrap();
    d.accept(7, 0).await;
    settle().await;
    let t = tokio::spawn(async move { c.read_group_address_value(KnxAddress::group_3_level(1, 2, 3)).await.ok() });
    d.want(0x0420, 3000).await.expect("request");
    let mut other = ind(0x0a03, 9);
    other[0] = 0x2b;
    d.tunnel(7, 0, &other).await;
    d.tunnel(7, 1, &ind(0x0a03, 0x55)).await;
    assert_eq!(timeout(Duration::from_secs(15), t).await.unwrap().unwrap(), Some(vec![0x55]));
''')),
dict(id='t11-write-shrinks',property='C22',edits=[(U,"        let apdu = APDU::group_value_write(value, small);","        // values of up to 6 bits fit the short form\n        let small = small || (value.len() == 1 && value.iter().all(|v| *v < 0x40));\n        let apdu = APDU::group_value_write(value, small);")],
 needs='a one-octet value below 64 written in the long form',breaks='an octet is written as a 6-bit value: devices take it for another datapoint type',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = UdpClient::connect(d.addr()).await.unwrap();
    d.accept(7, 0).await;
    settle().await;
    let t = tokio::spawn(async move { c.write_group_address_value(KnxAddress::group_3_level(1, 2, 3), vec![0x20], false).await.is_ok() });
    let f = d.want(0x0420, 3000).await.expect("request");
    assert_eq!(&f[f.len() - 4..], &[2, 0, 0x80, 0x20]);
    d.tunnel(7, 0, &con(0xbc)).await;
    assert!(timeout(Duration::from_secs(15), t).await.unwrap().unwrap());
''')),
dict(id='t12-repetition',property='C23',edits=[(M,"                        warn!(\"This message is a repetition\");\n","                        warn!(\"This message is a repetition\");\n                        continue;\n")],
 needs='a repeated telegram on the bus',breaks='the monitor hides it',
 demo=demo('''
    let mut d = Dev::new().await;
    let m = UdpMonitor::connect(&d.addr()).await.unwrap();
    d.accept(7, 0).await;
    d.want(0x0424, 3000).await.expect("feature set");
    settle().await;
    let ctrl = [0xbcu8, 0x9c, 0x9c, 0xbc];
    for (i, c) in ctrl.iter().enumerate() {
        let mut x = ind(0x0a01, i as u8);
        x[2] = *c;
        d.tunnel(7, i as u8, &x).await;
    }
    for i in 0..4u8 {
        let x = timeout(Duration::from_secs(3), m.next_msg()).await.expect("telegram hidden").unwrap();
        assert_eq!(x.value, vec![i]);
    }
''')),
dict(id='t13-connect-panics',property='C03',edits=[(U,"""        if let Err(e) = socket.connect(addr).await {
            whatever!("Unable to connect with target {:?}", e);
        }""","""        socket.connect(addr).await.expect("Unable to connect with target");""")],
 needs='a target address that cannot be resolved or reached',breaks='connect panics instead of reporting the error',
 demo=demo('''
    assert!(UdpClient::connect("not an address").await.is_err());
''')),
dict(id='t14-ack-with-status',property='C09',edits=[(U,"""            let resp = TunnelingAck::from_packet(&mut resp_cursor)?;
            debug!("Parsed tunneling ack {:?}", resp);""","""            let resp = TunnelingAck::from_packet(&mut resp_cursor)?;
            debug!("Parsed tunneling ack {:?}", resp);
            ensure_whatever!(resp.status == 0, "Request was not accepted");""")],
 needs='an ack with an error status',breaks='a valid ack is no longer classified as ack: the session task takes it for a broken session',
 demo=demo('''
    for status in [0u8, 0x21, 0x29] {
        assert!(matches!(parse_response(vec![6, 0x10, 4, 0x21, 0, 10, 4, 7, 1, status]), Ok(TunnelingResponse::TunnelingAck(_))));
    }
''')),
dict(id='t15-lock-order',property='C20',edits=[(M,"        self.on_connection.lock().await.push(tx);","""        // Listeners added later are told about the present connection
        //
        let mut on_connection = self.on_connection.lock().await;
        if self.connection_data.lock().await.is_some() {
            let _ = tx.try_send(());
        }
        on_connection.push(tx);"""),
  (M,"                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));","                        let mut data = connection_data.lock().await;\n                        *data = Some(ConnectionData::from_connection_response(connection));")],
 needs='a listener added at the moment a session is established',breaks='two locks are taken in opposite order: the task and the caller wait for each other for ever',
 demo=PRE+'''
#[tokio::main(flavor = "multi_thread", worker_threads = 6)]
async fn main() {
    let mut d = Dev::new().await;
    let m = std::sync::Arc::new(UdpMonitor::connect(&d.addr()).await.unwrap());
    d.accept(7, 0).await;
    let mut adders = vec![];
    for _ in 0..2 {
        let m = m.clone();
        adders.push(tokio::spawn(async move {
            loop {
                let (tx, rx) = tokio::sync::mpsc::channel(1);
                m.add_on_connect(tx).await;
                drop(rx);
                tokio::task::yield_now().await;
            }
        }));
    }
    let end = Instant::now() + Duration::from_secs(60);
    let mut n = 0;
    while Instant::now() < end && n < 20000 {
        d.put(&[6, 0x10, 2, 9, 0, 0x10, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57]).await;
        if d.want(0x0205, 3000).await.is_none() {
            assert!(timeout(Duration::from_secs(10), m.is_connected()).await.is_ok(), "deadlock after {} sessions", n);
            continue;
        }
        d.put(&[6, 0x10, 2, 6, 0, 0x14, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57, 4, 4, 0x11, 0x05]).await;
        if d.want(0x0424, 3000).await.is_none() {
            break;
        }
        n += 1;
    }
    assert!(timeout(Duration::from_secs(10), m.is_connected()).await.is_ok(), "deadlock after {} sessions", n);
    println!("{} sessions", n);
    std::process::exit(0);
}
'''),
]
