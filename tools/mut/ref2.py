U='src/transport/udp.rs'
M='src/transport/udp_monitor.rs'
CHECKS='C01 C02 C03 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24'
SEL_U="""                    tokio::pin!(recv);
                    'recv: loop {
                        tokio::select! {
                            resp = &mut recv => {
                                info!("Recieve messages from knx device task exited with result {:?}", resp);
                                if resp.is_ok() {
                                    debug!("Exit from reconnection loop");
                                    *connection_data.lock().await = None;
                                    break 'main;
                                } else {
                                    break 'recv;
                                }
                            },
                            _ = heart_beat.tick() => {
                                info!("Send connection heart beat");
                                let req = match connection_data.lock().await.as_ref() {
                                    Some(data) => {
                                        ConnectionstateRequest::new(
                                            data.communication_channel_id,
                                            data.control_endpoint.clone(),
                                        )
                                    },
                                    None => break,
                                };
                                if let Err(e) = socket.send(&req.packet()).await {
                                    warn!("Unable to send connection state request {:?}", e);
                                    break;
                                };
                            }
                        }
                    }

                    let mut data = connection_data.lock().await;
                    *data = None;
                }
"""
MUTS=[
('q-stop-flag','',[(U,SEL_U,"""                    tokio::pin!(recv);
                    let stop = loop {
                        tokio::select! {
                            resp = &mut recv => {
                                info!("Recieve messages from knx device task exited with result {:?}", resp);
                                break resp.is_ok();
                            },
                            _ = heart_beat.tick() => {
                                info!("Send connection heart beat");
                                let req = match connection_data.lock().await.as_ref() {
                                    Some(data) => {
                                        ConnectionstateRequest::new(
                                            data.communication_channel_id,
                                            data.control_endpoint.clone(),
                                        )
                                    },
                                    None => break false,
                                };
                                if let Err(e) = socket.send(&req.packet()).await {
                                    warn!("Unable to send connection state request {:?}", e);
                                    break false;
                                };
                            }
                        }
                    };
                    connection_data.lock().await.take();
                    if stop {
                        debug!("Exit from reconnection loop");
                        break 'main;
                    }
                }
""")]),
('q-hb-option','',[(U,"""                                let req = match connection_data.lock().await.as_ref() {
                                    Some(data) => {
                                        ConnectionstateRequest::new(
                                            data.communication_channel_id,
                                            data.control_endpoint.clone(),
                                        )
                                    },
                                    None => break,
                                };
                                if let Err(e) = socket.send(&req.packet()).await {""","""                                let beat = connection_data
                                    .lock()
                                    .await
                                    .as_ref()
                                    .map(|data| ConnectionstateRequest::new(data.communication_channel_id, data.control_endpoint.clone()).packet());
                                let Some(req) = beat else { break };
                                if let Err(e) = socket.send(&req).await {"""),
 (M,"""                                let req = {
                                    let guard = connection_data.lock().await;
                                    match guard.as_ref() {
                                        Some(data) => {
                                            ConnectionstateRequest::new(
                                                data.communication_channel_id,
                                                data.control_endpoint.clone(),
                                            )
                                        },
                                        None => break,
                                    }
                                };
                                if let Err(e) = socket.send(&req.packet()).await {""","""                                let (id, endpoint) = match connection_data.lock().await.as_ref() {
                                    Some(data) => (data.communication_channel_id, data.control_endpoint.clone()),
                                    None => break,
                                };
                                let req = ConnectionstateRequest::new(id, endpoint);
                                if let Err(e) = socket.send(&req.packet()).await {""")]),
('q-clear-helper','',[(M,"""                    let mut data = connection_data.lock().await;
                    *data = None;
                }""","""                    clear(&connection_data).await;
                }"""),(M,"""                                    *connection_data.lock().await = None;
                                    break 'main;""","""                                    clear(&connection_data).await;
                                    break 'main;"""),(M,"""async fn enable_busmonitor(""","""async fn clear(connection_data: &Mutex<Option<ConnectionData>>) {
    *connection_data.lock().await = None;
}

async fn enable_busmonitor(""")]),
('q-recv-response','',[(U,"""        let mut resp = vec![0; MAX_DATAGRAM_SIZE];
        match timeout(Duration::from_secs(10), self.socket.recv(&mut resp)).await {
            Ok(Ok(count)) => resp.truncate(count),
            Ok(Err(e)) => whatever!("Connectionstate not responded {:?}", e),
            Err(_) => whatever!("Connectionstate request timed out"),
        }
""","""        let resp = recv_response(&self.socket, Duration::from_secs(10)).await?;
"""),(U,"""    let mut resp = vec![0; MAX_DATAGRAM_SIZE];
    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
        Ok(Ok(count)) => resp.truncate(count),
        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
        Err(e) => whatever!("Target device does not respond {:?}", e),
    }
""","""    let resp = recv_response(&socket, Duration::from_secs(30)).await?;
"""),(U,"""async fn try_connection(""","""pub(crate) async fn recv_response(socket: &MyUdpSocket, limit: Duration) -> Result<Vec<u8>, Whatever> {
    let mut resp = vec![0; MAX_DATAGRAM_SIZE];
    match timeout(limit, socket.recv(&mut resp)).await {
        Ok(Ok(count)) => {
            resp.truncate(count);
            Ok(resp)
        }
        Ok(Err(e)) => whatever!("Unable to receive response {:?}", e),
        Err(e) => whatever!("Target device does not respond {:?}", e),
    }
}

async fn try_connection("""),(M,"""        let mut resp = vec![0; MAX_DATAGRAM_SIZE];
        match timeout(Duration::from_secs(10), self.socket.recv(&mut resp)).await {
            Ok(Ok(count)) => resp.truncate(count),
            Ok(Err(e)) => whatever!("Unable to get response {:?}", e),
            Err(_) => whatever!("Disconnect request timed out"),
        }
""","""        let resp = crate::transport::udp::recv_response(&self.socket, Duration::from_secs(10)).await?;
"""),(M,"time::{interval, timeout}","time::interval")]),
('q-consts','',[(U,"""pub struct MyUdpSocket {""","""const HEART_BEAT: Duration = Duration::from_secs(60);
const RETRY: Duration = Duration::from_secs(10);
const BUFFER_SIZE: usize = 2 * 256;
static ANSWER_TIMEOUT: Duration = Duration::from_secs(10);

pub struct MyUdpSocket {"""),(U,"interval(Duration::from_secs(60))","interval(HEART_BEAT)"),(U,"    sleep(Duration::from_secs(10)).await;\n    }\n}\n\nasync fn try","    sleep(RETRY).await;\n    }\n}\n\nasync fn try"),
 (U,"        match timeout(Duration::from_secs(10), self.socket.recv","        match timeout(ANSWER_TIMEOUT, self.socket.recv"),(U,"        let mut data = vec![0; MAX_DATAGRAM_SIZE];","        let mut data = vec![0; BUFFER_SIZE];"),(U,"            timeout: Duration::from_secs(10),","            timeout: ANSWER_TIMEOUT,"),(U,"        match timeout(Duration::from_secs(10), async {","        match timeout(ANSWER_TIMEOUT, async {")]),
('q-listeners-filter','',[(M,"""                        let mut active_on_connection = Vec::new();
                        let mut on_connection = on_connection.lock().await;
                        for tx in on_connection.iter() {
                            // A listener that does not read must not stop the session
                            //
                            if !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                active_on_connection.push(tx.clone());
                            }
                        }
                        *on_connection = active_on_connection;
""","""                        let mut on_connection = on_connection.lock().await;
                        let active: Vec<_> = on_connection
                            .iter()
                            .filter(|tx| !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))))
                            .cloned()
                            .collect();
                        *on_connection = active;
""")]),
('q-listeners-take','',[(M,"""                        let mut active_on_connection = Vec::new();
                        let mut on_connection = on_connection.lock().await;
                        for tx in on_connection.iter() {
                            // A listener that does not read must not stop the session
                            //
                            if !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                active_on_connection.push(tx.clone());
                            }
                        }
                        *on_connection = active_on_connection;
""","""                        let mut listeners = on_connection.lock().await;
                        for tx in std::mem::take(&mut *listeners) {
                            match tx.try_send(()) {
                                Err(mpsc::error::TrySendError::Closed(_)) => debug!("Listener gone"),
                                Ok(()) | Err(mpsc::error::TrySendError::Full(_)) => listeners.push(tx),
                            }
                        }
""")]),
('q-data-methods','',[(U,"""        match self.connection_data.lock().await.as_mut() {
            Some(data) => {
                let num = data.sequence_nr;
                data.sequence_nr = data.sequence_nr.wrapping_add(1);
                Ok((data.communication_channel_id, num))
            }
            None => whatever!("Disconnected from knx device, NR"),
        }""","""        self.connection_data
            .lock()
            .await
            .as_mut()
            .map(ConnectionData::next_request)
            .ok_or_else(|| <Whatever as snafu::FromString>::without_source("Disconnected from knx device, NR".into()))"""),(U,"""struct UdpTransport {""","""impl ConnectionData {
    fn next_request(&mut self) -> (u8, u8) {
        let num = self.sequence_nr;
        self.sequence_nr = self.sequence_nr.wrapping_add(1);
        (self.communication_channel_id, num)
    }
}

struct UdpTransport {""")]),
('q-sock-recv','',[(U,"""        let resp = self.inner.recv(buf).await;
        if let Ok(count) = resp {
            trace!("[IN] {:02x?}", &buf[0..count]);
        }
        resp""","""        match self.inner.recv(buf).await {
            Ok(count) => {
                trace!("[IN] {:02x?}", &buf[..count]);
                Ok(count)
            }
            Err(e) => Err(e),
        }""")]),
('q-ack-after-parse','',[(U,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let mut cemi = Cursor::new(req.get_cemi().as_slice());

                    let cemi = match CEMI::from_packet(&mut cemi) {
                        Ok(cemi) => cemi,""","""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    let parsed = CEMI::from_packet(&mut Cursor::new(req.get_cemi().as_slice())).ok();
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let cemi = match parsed.ok_or("invalid") {
                        Ok(cemi) => cemi,""")]),
('q-to-vec','',[(U,"""        let mut data = vec![0; MAX_DATAGRAM_SIZE];
        let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;

        if count > 0 {
            data.truncate(count);
            let resp = parse_response(data)?;
""","""        let mut data = [0u8; MAX_DATAGRAM_SIZE];
        let count = match socket.recv(&mut data).await {
            Ok(count) => count,
            Err(e) => return Err(format!("UPD Socket was closed {:?}", e).into()),
        };

        if count != 0 {
            let resp = parse_response(data[..count].to_vec())?;
""")]),
('q-if-let','',[(U,"""                    let cemi = match CEMI::from_packet(&mut cemi) {
                        Ok(cemi) => cemi,
                        Err(e) => {
                            warn!("Error parsing cEMI response {:?}", e);
                            continue;
                        }
                    };
                    match from_knx_tx.send(cemi).await {
                        Ok(_) => (),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };
""","""                    let parsed = CEMI::from_packet(&mut cemi).ok();
                    if let Some(cemi) = parsed {
                        if from_knx_tx.send(cemi).await.is_err() {
                            whatever!("Unable to pass received request from knx device");
                        }
                    } else {
                        warn!("Error parsing cEMI response");
                    }
""")]),
('q-reserve-permit','',[(U,"""                    match from_knx_tx.send(cemi).await {
                        Ok(_) => (),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };
""","""                    match from_knx_tx.reserve().await {
                        Ok(permit) => permit.send(cemi),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };
""")]),
('q-read-match','',[(U,"""                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
                    let data_ind = LDataInd::from_cemi(cemi)?;
                    debug!("Parsed indication cEMI {:?}", data_ind);
                    // Only group value response and write carry a value
                    //
                    if data_ind.l_data.dest == expected_addr && matches!(data_ind.apci, 1 | 2) {
                        return Ok(data_ind.value);
                    }
                }
                Ok(Some(cemi)) => warn!("Unknown cEMI message code {:?}", cemi.msg_code),
                Ok(None) => whatever!("No more data will be received from client"),
                Err(_) => whatever!("Request timed out"),
""","""                Ok(Some(cemi)) if cemi.msg_code != CEMIMessageCode::LDataInd as u8 => warn!("Unknown cEMI message code {:?}", cemi.msg_code),
                Ok(Some(cemi)) => {
                    let LDataInd { l_data, value, apci, .. } = LDataInd::from_cemi(cemi)?;
                    let carries_value = apci == 1 || apci == 2;
                    if !carries_value || l_data.dest != expected_addr {
                        continue;
                    }
                    return Ok(value);
                }
                Ok(None) => whatever!("No more data will be received from client"),
                Err(_) => whatever!("Request timed out"),
""")]),
('q-write-while','',[(U,"""        loop {
            match timeout(self.get_write_timeout(), rx.recv()).await {
                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                    let data_con = LDataCon::from_cemi(cemi)?;
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                    ensure_whatever!(data_con.confirm, "Write request was not confirmed by the bus");
                    return Ok(());
                }
                Ok(Some(cemi)) => debug!("Skip cEMI message code {:?}", cemi.msg_code),
                Ok(None) => whatever!("No more data will be received from client"),
                Err(_) => whatever!("Write request timed out"),
            }
        }
""","""        let limit = self.get_write_timeout();
        while let Ok(next) = timeout(limit, rx.recv()).await {
            let Some(cemi) = next else {
                whatever!("No more data will be received from client");
            };
            if cemi.msg_code != CEMIMessageCode::LDataCon as u8 {
                debug!("Skip cEMI message code {:?}", cemi.msg_code);
                continue;
            }
            return match LDataCon::from_cemi(cemi)? {
                con if con.confirm => Ok(()),
                _ => whatever!("Write request was not confirmed by the bus"),
            };
        }
        whatever!("Write request timed out")
""")]),
('q-disc-helper','',[(U,"""        let mut rx = self.rx.lock().await;
        match timeout(Duration::from_secs(10), async { while rx.recv().await.is_some() {} }).await {
            Ok(()) => Ok(()),
            Err(_) => whatever!("Disconnect request timed out"),
        }
    }
""","""        timeout(Duration::from_secs(10), self.drain())
            .await
            .with_whatever_context(|_| "Disconnect request timed out")
    }

    async fn drain(&self) {
        let mut rx = self.rx.lock().await;
        while let Some(cemi) = rx.recv().await {
            debug!("Discard {:?}", cemi);
        }
    }
""")]),
('q-mon-next','',[(M,"""                Some(cemi) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                    let data_con = LDataCon::from_cemi(cemi);
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                    continue;
                }
""","")]),
('q-mon-endpoint','',[(M,"""        let (communication_channel_id, control_endpoint) = self.control_endpoint().await?;
        let req = DisconnectRequest::new(communication_channel_id, control_endpoint).packet();
        debug!("Request disconnect for connection {}", communication_channel_id);
""","""        let guard = self.connection_data.lock().await;
        let (communication_channel_id, req) = match &*guard {
            Some(ConnectionData { communication_channel_id, control_endpoint, .. }) => {
                (*communication_channel_id, DisconnectRequest::new(*communication_channel_id, control_endpoint.clone()).packet())
            }
            None => whatever!("Disconnected from knx device, HPAI"),
        };
        drop(guard);
""")]),
('q-resp-code','',[(U,"""                TunnelingResponse::DisconnectResponse(resp) => {
                    if resp.status == 0 {
                        info!("Successfully disconnected");
                    } else {
                        warn!("Unable to disconnect, status code {:?}", resp);
                    }
                    break Ok("KNX device disconnected by our will".into());
                }""","""                TunnelingResponse::DisconnectResponse(resp) => {
                    match resp.status {
                        0 => info!("Successfully disconnected"),
                        _ => warn!("Unable to disconnect, status code {:?}", resp),
                    }
                    return Ok("KNX device disconnected by our will".to_string());
                }"""),(U,"""                    if resp.status != 0 {
                        warn!("Connection state response with error {}", resp.status);
                        whatever!("KNX device signaled a connection state error");
                    }""","""                    ensure_whatever!(resp.status == 0, "KNX device signaled a connection state error {}", resp.status);""")]),
('q-main-while','',[(U,"""                'main: loop {
                    // If""","""                let mut running = true;
                while running {
                    // If"""),(U,"""                                    *connection_data.lock().await = None;
                                    break 'main;
                                } else {
                                    break 'recv;
                                }""","""                                    running = false;
                                }
                                break 'recv;""")]),
('q-hb-deadline','',[(U,"""                let mut heart_beat = interval(Duration::from_secs(60));
                // prevents many heart beats when connection disconnect and restores
                //
                heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
""","""                let mut next_beat = tokio::time::Instant::now();
"""),(U,"""                            _ = heart_beat.tick() => {
""","""                            _ = tokio::time::sleep_until(next_beat) => {
                                next_beat = tokio::time::Instant::now() + Duration::from_secs(60);
""")]),
]
