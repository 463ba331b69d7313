U='src/transport/udp.rs'; M='src/transport/udp_monitor.rs'
MUTS=[
# C10
('ack-wrong-seq','C10',[(U,"let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);","let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr.wrapping_add(1), 0);")]),
('ack-after-deliver','C10',[(U,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let mut cemi""","""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);

                    let mut cemi"""),(U,"""                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };""","""                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }""")]),
('fresp-noack','C10',[(U,"""                    let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);

                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }""","""                    debug!("Feature response {:?}", resp);""")]),
('ack-only-when-changed','C10',[(U,"""    loop {
        let mut data = vec![0; MAX_DATAGRAM_SIZE];
        let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;""","""    let mut last_seq = None;
    loop {
        let mut data = vec![0; MAX_DATAGRAM_SIZE];
        let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;"""),(U,"""                TunnelingResponse::TunnelingRequest(req) => {
""","""                TunnelingResponse::TunnelingRequest(req) => {
                    if last_seq == Some(req.sequence_nr) {
                        continue;
                    }
                    last_seq = Some(req.sequence_nr);
""")]),
('ack-of-ack','C10',[(U,"TunnelingResponse::TunnelingAck(_) => {}","""TunnelingResponse::TunnelingAck(a) => {
                    if a.status != 0 {
                        let _ = socket.send(&a.packet()).await;
                    }
                }""")]),
# C11
('drop-when-full','C11',[(U,"""                    match from_knx_tx.send(cemi).await {
                        Ok(_) => (),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };""","""                    if from_knx_tx.try_send(cemi).is_err() {
                        warn!("Queue is full, telegram lost");
                    }""")]),
('deliver-ind-only','C11',[(U,"match from_knx_tx.send(cemi).await {","""if cemi.msg_code == CEMIMessageCode::LPollDataCon as u8 {
                        continue;
                    }
                    match from_knx_tx.send(cemi).await {""")]),
('bad-cemi-ends','C11',[(U,"""                            warn!("Error parsing cEMI response {:?}", e);
                            continue;""","""                            whatever!("Error parsing cEMI response {:?}", e);""")]),
('dup-deliver','C11',[(U,"""                    let mut cemi = Cursor::new(req.get_cemi().as_slice());

                    let cemi =""","""                    if req.sequence_nr == 255 {
                        let raw = req.get_cemi();
                        let again = CEMI::from_packet(&mut Cursor::new(raw.as_slice())).ok();
                        if let Some(again) = again {
                            let _ = from_knx_tx.send(again).await;
                        }
                    }
                    let mut cemi = Cursor::new(req.get_cemi().as_slice());

                    let cemi =""")]),
# C12
('restart-recv','C12',[(M,"""                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
                    tokio::pin!(recv);
                    loop {
                        tokio::select! {
                            resp = &mut recv => {""","""                    loop {
                        tokio::select! {
                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {""")]),
# C13
('disc-resp-chan','C13',[('src/packets/core.rs',"communication_channel_id: req.communication_channel_id,","communication_channel_id: 0,")]),
('disc-req-ignored','C13',[(U,"""                    whatever!("KNX device requested disconnection");""","""                    info!("KNX device requested disconnection");""")]),
('disc-noresp','C13',[(U,"""                    let disconnect_resp = DisconnectResponse::from_disconnect_request(&req);
                    if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                        warn!("Unable to send disconnect response to knxip target {:?}", e);
                    }
                    whatever""","""                    debug!("{:?}", req);
                    whatever""")]),
('disc-stays','C13',[(M,"""                                    *connection_data.lock().await = None;
                                    break 'main;""","""                                    break 'main;""")]),
('mon-break','C13',[(M,"""                                } else {
                                    break;
                                }""","""                                } else {
                                    break 'main;
                                }""")]),
('isconn-wrong','C13',[(M,"self.connection_data.lock().await.is_some()","self.connection_data.lock().await.as_ref().map(|d| d.sequence_nr > 0).unwrap_or(false)")]),
# C14
('seq-sat','C14',[(M,"data.sequence_nr = data.sequence_nr.wrapping_add(1);","data.sequence_nr = data.sequence_nr.saturating_add(1);")]),
('seq-mod255','C14',[(U,"data.sequence_nr = data.sequence_nr.wrapping_add(1);","data.sequence_nr = (data.sequence_nr + 1) % 255;")]),
('seq-pre','C14',[(U,"""                let num = data.sequence_nr;
                data.sequence_nr = data.sequence_nr.wrapping_add(1);""","""                data.sequence_nr = data.sequence_nr.wrapping_add(1);
                let num = data.sequence_nr;""")]),
('mon-enable-1','C14',[(M,"let sequence_nr = 0;","let sequence_nr = 1;")]),
('mon-starts-0','C14',[(M,"sequence_nr: 1,","sequence_nr: 0,")]),
# C15
('two-locks','C15',[(U,"let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;\n        let tunneled_req","let (_, sequence_nr) = self.get_next_sequence_nr().await?;\n        let communication_channel_id = self.get_communication_channel_id().await?;\n        let tunneled_req")]),
('default-chan','C15',[(M,"let (communication_channel_id, control_endpoint) = self.control_endpoint().await?;","let (_, control_endpoint) = self.control_endpoint().await?;\n        let communication_channel_id = self.communication_channel_id().await.unwrap_or(1);")]),
('no-session-ok','C15',[(M,"""            whatever!("Unable to send connection state request {:?}", e);
        };
        Ok(())""","""            warn!("Unable to send connection state request {:?}", e);
        };
        Ok(())""")]),
# C16
('no-status-check','C16',[(U,"""    let connection_status = connection.get_status();
    ensure_whatever!(connection_status == 0, "Connection returned an error {:?}", connection_status);

    Ok(connection)
}

pub(crate)""","""    Ok(connection)
}

pub(crate)""")]),
('status-other','C16',[(U,"ensure_whatever!(connection_status == 0,","ensure_whatever!(connection_status != 0x24,")]),
('busy-retry','C16',[(U,"""                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        sleep(Duration::from_secs(10)).await;""","""                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        sleep(Duration::from_millis(10)).await;""")]),
('hb-fail-kept','C16',[(M,"""                                    warn!("Unable to send connection state request {:?}", e);
                                    break;""","""                                    warn!("Unable to send connection state request {:?}", e);""")]),
('not-cleared','C16',[(M,"""                    let mut data = connection_data.lock().await;
                    *data = None;
                }""","""                    debug!("Receive path ended");
                }""")]),
# C17
('hb-61','C17',[(M,"interval(Duration::from_secs(60))","interval(Duration::from_secs(61))")]),
('hb-reset','C17',[(U,"resp = &mut recv => {","resp = &mut recv => {\n                                heart_beat.reset();")]),
('state-err-ignored','C17',[(U,"""                        whatever!("KNX device signaled a connection state error");""","""                        info!("KNX device signaled a connection state error");""")]),
('state-err-some','C17',[(U,"if resp.status != 0 {\n                        warn!(\"Connection state","if resp.status == 0x21 {\n                        warn!(\"Connection state")]),
# C18
('read-no-timeout','C18',[(U,"match timeout(self.get_read_timeout(), rx.recv()).await {\n                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {\n                    let data_con = LDataCon::from_cemi(cemi);","match Ok::<_, tokio::time::error::Elapsed>(rx.recv().await) {\n                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {\n                    let data_con = LDataCon::from_cemi(cemi);")]),
('disc-late-ok','C18',[(U,"""            Err(_) => whatever!("Disconnect request timed out"),
        }
    }

    pub async fn search""","""            Err(_) => Ok(()),
        }
    }

    pub async fn search""")]),
('conn-no-timeout','C18',[(U,"match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {\n        Ok(Ok(count)) => resp.truncate(count),\n        Ok(Err(e)) => whatever!(\"Unable to receive connection response {:?}\", e),\n        Err(e) => whatever!(\"Target device does not respond {:?}\", e),\n    }","match socket.recv(&mut resp).await {\n        Ok(count) => resp.truncate(count),\n        Err(e) => whatever!(\"Unable to receive connection response {:?}\", e),\n    }")]),
# C19
('client-disc-recv','C19',[(U,"""        let mut rx = self.rx.lock().await;
        match timeout(Duration::from_secs(10), async { while rx.recv().await.is_some() {} }).await {
            Ok(()) => Ok(()),""","""        let mut resp = vec![0; MAX_DATAGRAM_SIZE];
        match timeout(Duration::from_secs(10), self.socket.recv(&mut resp)).await {
            Ok(_) => Ok(()),""")]),
('write-acks','C19',[(U,'debug!("Write request sent to bus");','let mut ack = vec![0; 20];\n        let _ = timeout(Duration::from_secs(1), transport.socket.recv(&mut ack)).await;')]),
# C20
('hold-session-send','C20',[(U,"""        let mut rx = self.rx.lock().await;
        match timeout(Duration::from_secs(10), async""","""        let mut rx = self.rx.lock().await;
        let _data = self.connection_data.lock().await;
        match timeout(Duration::from_secs(10), async""")]),
('onconn-order','C20',[(M,"self.on_connection.lock().await.push(tx);","let mut on_connection = self.on_connection.lock().await;\n        if self.connection_data.lock().await.is_some() {\n            let _ = tx.try_send(());\n        }\n        on_connection.push(tx);"),
  (M,"""                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
""","""                        let mut data = connection_data.lock().await;
                        *data = Some(ConnectionData::from_connection_response(connection));
""")]),
('relock','C20',[(U,"""            Some(data) => Ok((data.communication_channel_id, data.control_endpoint.clone())),
            None => whatever!("Disconnected from knx device, HPAI"),""","""            Some(data) => Ok((self.get_communication_channel_id().await?, data.control_endpoint.clone())),
            None => whatever!("Disconnected from knx device, HPAI"),""")]),
# C21
('read-any-apci','C21',[(U,"if data_ind.l_data.dest == expected_addr && matches!(data_ind.apci, 1 | 2) {","if data_ind.l_data.dest == expected_addr {")]),
('read-low-byte','C21',[(U,"if data_ind.l_data.dest == expected_addr &&","if data_ind.l_data.dest & 0x7fff == expected_addr & 0x7fff &&")]),
('read-src','C21',[(U,"if data_ind.l_data.dest == expected_addr &&","if (data_ind.l_data.dest == expected_addr || data_ind.l_data.src == expected_addr) &&")]),
('read-con-err','C21',[(U,"let data_con = LDataCon::from_cemi(cemi);\n                    debug!(\"Parsed confirmation cEMI {:?}\", data_con);","let data_con = LDataCon::from_cemi(cemi)?;\n                    debug!(\"Parsed confirmation cEMI {:?}\", data_con);")]),
('read-unknown-err','C21',[(U,"""Ok(Some(cemi)) => warn!("Unknown cEMI message code {:?}", cemi.msg_code),""","""Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),""")]),
# C22
('write-any-con','C22',[(U,"""                    ensure_whatever!(data_con.confirm, "Write request was not confirmed by the bus");
""","")]),
('write-ind-ok','C22',[(U,"match timeout(self.get_write_timeout(), rx.recv()).await {\n                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8","match timeout(self.get_write_timeout(), rx.recv()).await {\n                Ok(Some(cemi)) if cemi.msg_code & 0xf8 == CEMIMessageCode::LDataCon as u8 & 0xf8")]),
('write-late-ok','C22',[(U,'Err(_) => whatever!("Write request timed out"),','Err(_) => return Ok(()),')]),
('write-twice','C22',[(U,'Err(_) => whatever!("Write request timed out"),','Err(_) => { transport.tunnel_req(req.packet()).await?; }')]),
# C23
('mon-drop-rep','C23',[(M,'warn!("This message is a repetition");','warn!("This message is a repetition");\n                        continue;')]),
('mon-con-ret','C23',[(M,"""                    let data_con = LDataCon::from_cemi(cemi);
""","""                    let data_con = LDataCon::from_cemi(cemi)?;
""")]),
('mon-ind-skip','C23',[(M,"""                    let data_ind = LDataInd::from_cemi(cemi)?;
                    debug!("Parsed indication cEMI {:?}", data_ind);
                    if""","""                    let data_ind = match LDataInd::from_cemi(cemi) {
                        Ok(data_ind) => data_ind,
                        Err(_) => continue,
                    };
                    debug!("Parsed indication cEMI {:?}", data_ind);
                    if""")]),
# C24
('search-restart','C24',[(U,"        let deadline = sleep(timeout);\n        tokio::pin!(deadline);\n",""),(U,"_ = &mut deadline => {","_ = sleep(timeout) => {")]),
('search-bad-ends','C24',[(U,"""                                Err(e) => warn!("Skip invalid search response {:?}", e),""","""                                Err(e) => { warn!("Skip invalid search response {:?}", e); break; }""")]),
('search-first','C24',[(U,"                                    responses.push(resp);","                                    responses.insert(0, resp);")]),
('search-port','C24',[(U,"(SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)","(SYSTEM_MULTICAST_ADDRESS, local_addr.port())")]),
('search-stale','C08',[(U,"let response = &buffer[..n_bytes];","let response = &buffer[..n_bytes.max(70)];")]),
('conn-stale','C08',[(U,"Ok(Ok(count)) => resp.truncate(count),\n        Ok(Err(e)) => whatever!(\"Unable to receive connection","Ok(Ok(_)) => (),\n        Ok(Err(e)) => whatever!(\"Unable to receive connection")]),
('state-stale','C08',[(U,"Ok(Ok(count)) => resp.truncate(count),\n            Ok(Err(e)) => whatever!(\"Connectionstate","Ok(Ok(_)) => (),\n            Ok(Err(e)) => whatever!(\"Connectionstate")]),
('recv-unwrap','C03',[(U,'let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;','let count = socket.recv(&mut data).await.unwrap();')]),
('send-expect','C03',[(M,"if let Err(e) = transport.tunnel_req(req.packet()).await {\n            whatever!(\"Unable to send connection state request {:?}\", e);\n        };","transport.tunnel_req(req.packet()).await.expect(\"send\");")]),
]
