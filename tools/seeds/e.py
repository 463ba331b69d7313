B={}; exec(open('/verif/tools/seeds/b.py').read(),B)
demo,U,M=B['demo'],B['U'],B['M']
LOOP='''                        let mut active_on_connection = Vec::new();
                        let mut on_connection = on_connection.lock().await;
                        for tx in on_connection.iter() {
                            // A listener that does not read must not stop the session
                            //
                            if !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                active_on_connection.push(tx.clone());
                            }
                        }
                        *on_connection = active_on_connection;
'''
SEEDS=[
dict(id='w01-listener-writeback',property='C36',edits=[(M,LOOP,'''                        // Listeners may register while the others are told
                        //
                        let listeners = on_connection.lock().await.clone();
                        let mut active_on_connection = Vec::new();
                        for tx in listeners {
                            match tx.try_send(()) {
                                Err(mpsc::error::TrySendError::Closed(_)) => {
                                    debug!("Connection listener is gone");
                                    tokio::task::yield_now().await;
                                }
                                _ => active_on_connection.push(tx),
                            }
                        }
                        *on_connection.lock().await = active_on_connection;
''')],
 needs='a listener that registers while the session task is telling the others (one of them gone) of a new session',breaks='the new listener is forgotten and never told',
 demo='''
#![allow(dead_code)]
'''+B['PRE']+'''
// one thread: the session task and the registration take turns
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut d = Dev::new().await;
    let m = std::sync::Arc::new(UdpMonitor::connect(&d.addr()).await.unwrap());
    // listeners that are gone: the session task yields for each of them
    for _ in 0..50 {
        let (tx, rx) = tokio::sync::mpsc::channel::<()>(1);
        m.add_on_connect(tx).await;
        drop(rx);
    }
    let (tx, mut old) = tokio::sync::mpsc::channel::<()>(1);
    m.add_on_connect(tx).await;
    // registers as soon as the session is there
    let (late_tx, mut late) = tokio::sync::mpsc::channel::<()>(4);
    let reg = tokio::spawn({
        let m = m.clone();
        async move {
            while !m.is_connected().await { tokio::task::yield_now().await; }
            m.add_on_connect(late_tx).await;
        }
    });
    d.accept(7, 0).await;
    d.want(0x0424, 3000).await.expect("feature set");
    timeout(Duration::from_secs(5), old.recv()).await.expect("not told").unwrap();
    reg.await.unwrap();
    settle().await;
    while late.try_recv().is_ok() {}
    // the session is lost and established again
    d.put(&[6, 0x10, 2, 9, 0, 0x10, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57]).await;
    d.accept(8, 0).await;
    d.want(0x0424, 3000).await.expect("feature set");
    let told = timeout(Duration::from_secs(5), late.recv()).await.ok().flatten();
    assert!(told.is_some(), "the late listener is forgotten");
}
'''),
dict(id='w02-add-drops-full',property='C36',edits=[(M,"        self.on_connection.lock().await.push(tx);","""        let mut on_connection = self.on_connection.lock().await;
        // Those that do not read any more are not needed
        //
        on_connection.retain(|tx| tx.capacity() > 0);
        on_connection.push(tx);""")],
 needs='a listener that has not yet read its last notification while another one registers',breaks='the first listener is never told again',
 demo=demo('''
    let mut d = Dev::new().await;
    let m = UdpMonitor::connect(&d.addr()).await.unwrap();
    let (tx, mut one) = tokio::sync::mpsc::channel::<()>(1);
    m.add_on_connect(tx).await;
    d.accept(7, 0).await;
    d.want(0x0424, 3000).await.expect("feature set");
    settle().await;
    let (tx, mut two) = tokio::sync::mpsc::channel::<()>(1);
    m.add_on_connect(tx).await;
    timeout(Duration::from_secs(5), one.recv()).await.expect("not told").unwrap();
    d.put(&[6, 0x10, 2, 9, 0, 0x10, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57]).await;
    d.accept(8, 0).await;
    d.want(0x0424, 3000).await.expect("feature set");
    timeout(Duration::from_secs(5), two.recv()).await.expect("second is not told").unwrap();
    let told = timeout(Duration::from_secs(5), one.recv()).await.ok().flatten();
    assert!(told.is_some(), "the first listener is forgotten");
''')),
dict(id='w03-retry-hour',property='C32',edits=[(U,"""    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,
            Err(e) => {
                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        sleep(Duration::from_secs(10)).await;
    }
""","""    let mut pause = Duration::from_secs(10);
    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,
            Err(e) => {
                warn!("Unable to connect with KNXIP device, retry in {:?} {:?}", pause, e);
            }
        }
        sleep(pause).await;
        pause = (pause * 4).min(Duration::from_secs(3600));
    }
""")],
 needs='three connect attempts that fail in a row',breaks='the pause grows up to an hour, a device that is back is not connected for that long',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = UdpClient::connect(d.addr()).await.unwrap();
    for i in 0..4 {
        d.want(0x0205, 122000).await.unwrap_or_else(|| panic!("no connect request {}", i));
        d.put(&[6, 0x10, 2, 6, 0, 8, 0, 0x24]).await;
    }
    drop(c);
''')),
dict(id='w04-give-up',property='C32',edits=[(U,"""                        let connection = connect(socket.clone()).await;
                        let communication_channel_id = connection.get_communication_channel_id();

                        info!("Created communication channel ID {:?}", communication_channel_id);
                        let mut""","""                        let Some(connection) = connect(socket.clone()).await else {
                            warn!("KNXIP device does not accept connections");
                            break 'main;
                        };
                        let communication_channel_id = connection.get_communication_channel_id();

                        info!("Created communication channel ID {:?}", communication_channel_id);
                        let mut"""),(U,"""pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {
    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,
            Err(e) => {
                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        sleep(Duration::from_secs(10)).await;
    }
""","""pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> Option<ConnectionResponse> {
    for _ in 0..4 {
        match try_connection(socket.clone()).await {
            Ok(connection) => return Some(connection),
            Err(e) => {
                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        sleep(Duration::from_secs(10)).await;
    }
    None
"""),(M,"""                        let connection = connect(socket.clone()).await;
""","""                        let Some(connection) = connect(socket.clone()).await else {
                            continue;
                        };
""")],
 needs='four connect attempts of the client that are refused in a row',breaks='the session task ends, the client never connects again',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = UdpClient::connect(d.addr()).await.unwrap();
    for i in 0..5 {
        d.want(0x0205, 30000).await.unwrap_or_else(|| panic!("no connect request {}", i));
        d.put(&[6, 0x10, 2, 6, 0, 8, 0, 0x24]).await;
    }
    drop(c);
''')),
]
SEEDS=[s for s in SEEDS if s['demo']]
