U='src/transport/udp.rs'; M='src/transport/udp_monitor.rs'
MUTS=[
('give-up-after-5','C32',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> Option<ConnectionResponse> {\n    for _ in 0..5 {"),(U,"Ok(connection) => return connection,","Ok(connection) => return Some(connection),"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(Duration::from_secs(10)).await;\n    }\n    None\n}"),
  (U,"let connection = connect(socket.clone()).await;","let Some(connection) = connect(socket.clone()).await else { break 'main };"),(M,"let connection = connect(socket.clone()).await;","let Some(connection) = connect(socket.clone()).await else { continue };")]),
('hb-ends','C32',[(U,"""                                    warn!("Unable to send connection state request {:?}", e);
                                    break;""","""                                    warn!("Unable to send connection state request {:?}", e);
                                    *connection_data.lock().await = None;
                                    break 'main;""")]),
('backoff','C32',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(10);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause *= 2;\n    }\n}")]),
('backoff-sat','C32',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = 10u64;\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(Duration::from_secs(pause)).await;\n        pause = (pause * 2).min(3600);\n    }\n}")]),
('recv-err-ok','C32',[(U,"""let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;""","""let count = match socket.recv(&mut data).await {
            Ok(count) => count,
            Err(e) => return Ok(format!("UPD Socket was closed {:?}", e)),
        };""")]),
('empty-ends','C32',[(U,"        if count > 0 {\n            data.truncate(count);","        if count == 0 {\n            return Ok(\"closed by the device\".into());\n        }\n        {\n            data.truncate(count);")]),
('dreq-ends','C32',[(U,"""                    whatever!("KNX device requested disconnection");""","""                    break Ok("KNX device requested disconnection".into());""")]),
('state-ends','C32',[(U,"""                        whatever!("KNX device signaled a connection state error");""","""                        break Ok("KNX device signaled a connection state error".into());""")]),
('long-pause','C32',[(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(Duration::from_secs(100)).await;\n    }\n}")]),
('no-limit','C32',[(U,"    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {\n        Ok(Ok(count)) => resp.truncate(count),\n        Ok(Err(e)) =>","    match Ok::<_, String>(socket.recv(&mut resp).await) {\n        Ok(Ok(count)) => resp.truncate(count),\n        Ok(Err(e)) =>")]),
('feature-fails-ends','C32',[(M,"if enable_busmonitor(&socket, communication_channel_id).await.is_err() {\n                            continue;","if enable_busmonitor(&socket, communication_channel_id).await.is_err() {\n                            break;")]),
('ok-pause-short','',[(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    for _ in 0..10 {\n            sleep(Duration::from_secs(1)).await;\n        }\n    }\n}")]),
('ok-backoff','',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = 5u64;\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(Duration::from_secs(pause)).await;\n        pause = (pause * 2).min(60);\n    }\n}")]),
('ok-dur-min','',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause = (pause * 2).min(Duration::from_secs(60));\n    }\n}")]),
('ok-dur-satmin','',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause = std::cmp::min(pause.saturating_mul(2), Duration::from_secs(60));\n    }\n}")]),
('ok-dur-if','',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause *= 2;\n        if pause > Duration::from_secs(60) {\n            pause = Duration::from_secs(60);\n        }\n    }\n}")]),
('ok-dur-add','',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        if pause < Duration::from_secs(50) {\n            pause += Duration::from_secs(5);\n        }\n    }\n}")]),
('ok-dur-new','',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause = Duration::new(20, 5);\n    }\n}")]),
('ok-dur-millis','',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause = Duration::from_millis((pause.as_millis() as u64 * 2).min(60_000));\n    }\n}")]),
('ok-dur-secs','',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause = Duration::from_secs(pause.as_secs() + 1).min(Duration::from_secs(30));\n    }\n}")]),
('bad-dur-min','C32',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause = (pause * 2).min(Duration::from_secs(300));\n    }\n}")]),
('bad-dur-max','C32',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause = (pause * 2).max(Duration::from_secs(60));\n    }\n}")]),
('bad-dur-add','C32',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        pause += Duration::from_secs(5);\n    }\n}")]),
('bad-dur-if','C32',[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut pause = Duration::from_secs(5);\n    loop {"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}","    sleep(pause).await;\n        if pause < Duration::from_secs(100) {\n            pause *= 3;\n        }\n    }\n}")]),
]
CHECKS='C32 C16 C18 C03'
