B={}; exec(open('/verif/tools/seeds/b.py').read(),B)
demo,U,M=B['demo'],B['U'],B['M']
SEEDS=[
dict(id='v02-stale-value',property='C33',edits=[(U,"""        let mut rx = transport.rx.lock().await;
        // What was received before the request is not its answer
        //
        while rx.try_recv().is_ok() {}
""","""        let mut rx = transport.fresh_rx().await;
"""),(U,"""    async fn get_communication_channel_id(""","""    // Telegram queue without what earlier requests left there, up to their confirmation
    //
    async fn fresh_rx(&self) -> tokio::sync::MutexGuard<'_, mpsc::Receiver<CEMI>> {
        let mut rx = self.rx.lock().await;
        while let Ok(cemi) = rx.try_recv() {
            if cemi.msg_code == CEMIMessageCode::LDataCon as u8 {
                break;
            }
        }
        rx
    }

    async fn get_communication_channel_id(""")],
 needs='a confirmation in the queue and behind it an old value of the address that is read',breaks='the read returns the old value',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = UdpClient::connect(d.addr()).await.unwrap();
    d.accept(7, 0).await;
    settle().await;
    d.tunnel(7, 0, &ind(0x0a01, 97)).await;
    d.tunnel(7, 1, &con(0xbc)).await;
    d.tunnel(7, 2, &ind(0x0a01, 98)).await;
    settle().await;
    let read = tokio::spawn(async move { c.read_group_address_value(KnxAddress::group_3_level(1, 2, 1)).await.map_err(|e| e.to_string()) });
    d.want(0x0420, 3000).await.expect("request");
    settle().await;
    d.tunnel(7, 3, &ind(0x0a01, 5)).await;
    assert_eq!(read.await.unwrap().unwrap(), vec![5]);
''')),
dict(id='v03-drain-late',property='C33',edits=[(U,"""        while rx.try_recv().is_ok() {}
        transport.tunnel_req(req.packet()).await?;
        debug!("Write request sent to bus");
""","""        if rx.len() > 1 {
            while rx.try_recv().is_ok() {}
        }
        let req = req.packet();
        transport.tunnel_req(req).await?;
        debug!("Write request sent to bus");
""")],
 needs='exactly one telegram in the queue, a late confirmation of an earlier request',breaks='the write succeeds although its own request is not confirmed',
 demo=demo('''
    let mut d = Dev::new().await;
    let c = UdpClient::connect(d.addr()).await.unwrap();
    d.accept(7, 0).await;
    settle().await;
    d.tunnel(7, 0, &con(0xbc)).await;
    settle().await;
    let write = tokio::spawn(async move { c.write_group_address_value(KnxAddress::group_3_level(1, 2, 1), vec![1], true).await.map_err(|e| e.to_string()) });
    d.want(0x0420, 3000).await.expect("request");
    settle().await;
    d.tunnel(7, 1, &con(0xbd)).await;
    assert!(write.await.unwrap().is_err(), "negative confirmation ignored");
''')),
]
