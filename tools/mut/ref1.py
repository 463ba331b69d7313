# behaviour-preserving edits of the transports: every check must stay quiet
U='src/transport/udp.rs'; M='src/transport/udp_monitor.rs'
CHECKS='C01 C02 C03 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24'
MUTS=[
('r-ack-helper','',[(U,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }
""","""                    send_ack(&socket, req.communication_channel_id, req.sequence_nr).await?;
"""),(U,"""                    let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);

                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }
""","""                    send_ack(&socket, resp.communication_channel_id, resp.sequence_nr).await?;
"""),(U,"""pub(crate) async fn handle_recv_from""","""async fn send_ack(socket: &MyUdpSocket, channel: u8, seq: u8) -> TransportResult<()> {
    let ack = TunnelingAck::new(channel, seq, 0);
    if let Err(e) = socket.send(&ack.packet()).await {
        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
    }
    Ok(())
}

pub(crate) async fn handle_recv_from""")]),
('r-deliver-helper','',[(U,"""                    let mut cemi = Cursor::new(req.get_cemi().as_slice());

                    let cemi = match CEMI::from_packet(&mut cemi) {
                        Ok(cemi) => cemi,
                        Err(e) => {
                            warn!("Error parsing cEMI response {:?}", e);
                            continue;
                        }
                    };
                    match from_knx_tx.send(cemi).await {
                        Ok(_) => (),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };
""","""                    deliver(&from_knx_tx, &req).await?;
"""),(U,"""pub(crate) async fn handle_recv_from""","""async fn deliver(tx: &Sender<CEMI>, req: &TunnelingRequest) -> TransportResult<()> {
    let raw = req.get_cemi();
    let cemi = match CEMI::from_packet(&mut Cursor::new(raw.as_slice())) {
        Ok(cemi) => cemi,
        Err(e) => {
            warn!("Error parsing cEMI response {:?}", e);
            return Ok(());
        }
    };
    tx.send(cemi).await.map_err(|e| format!("Unable to pass received request from knx device, {:?}", e))?;
    Ok(())
}

pub(crate) async fn handle_recv_from""")]),
('r-parse-match','',[(U,"""    let response_code = resp.get(2..4);
    if response_code.is_some() {
        if response_code == Some(&[0x04, 0x20]) {""","""    let response_code = resp.get(2..4);
    if let Some(code) = response_code {
        if code[0] == 0x04 && code[1] == 0x20 {""")]),
('r-parse-full-match','',[(U,"""    let response_code = resp.get(2..4);
    if response_code.is_some() {
        if response_code == Some(&[0x04, 0x20]) {
            debug!("Received tunneling request");
            let mut resp_cursor = Cursor::new(resp.as_slice());
            let resp = TunnelingRequest::from_packet(&mut resp_cursor)?;
            debug!("Parsed tunneling request {:?}", resp);
            Ok(TunnelingResponse::TunnelingRequest(resp))
        } else if response_code == Some(&[0x04, 0x21]) {
            debug!("Received tunneling ack");
            let mut resp_cursor = Cursor::new(resp.as_slice());
            let resp = TunnelingAck::from_packet(&mut resp_cursor)?;
            debug!("Parsed tunneling ack {:?}", resp);
            Ok(TunnelingResponse::TunnelingAck(resp))
        } else if response_code == Some(&[0x04, 0x23]) {
            debug!("Received feature response");
            let mut resp_cursor = Cursor::new(resp.as_slice());
            let resp = FeatureResp::from_packet(&mut resp_cursor)?;
            debug!("Parsed feature response {:?}", resp);
            Ok(TunnelingResponse::FeatureResponse(resp))
        } else if response_code == Some(&[0x02, 0x0a]) {
            debug!("Received disconnection response");
            let mut resp_cursor = Cursor::new(resp.as_slice());
            let resp = DisconnectResponse::from_packet(&mut resp_cursor)?;
            debug!("Parsed disconnect response {:?}", resp);
            Ok(TunnelingResponse::DisconnectResponse(resp))
        } else if response_code == Some(&vec![0x02, 0x08]) {
            debug!("Received connection state response");
            let mut resp_cursor = Cursor::new(resp.as_slice());
            let resp = ConnectionstateResponse::from_packet(&mut resp_cursor)?;
            debug!("Parsed connection state response {:?}", resp);
            Ok(TunnelingResponse::ConnectionstateResponse(resp))
        } else if response_code == Some(&vec![0x02, 0x09]) {
            debug!("Received disconnect request");
            let mut resp_cursor = Cursor::new(resp.as_slice());
            let resp = DisconnectRequest::from_packet(&mut resp_cursor)?;
            debug!("Parsed disconnect request {:?}", resp);
            Ok(TunnelingResponse::DisconnectRequest(resp))
        } else {
            whatever!("Unknown response code {:?}", response_code);
        }
    } else {
        whatever!("Tunneling response without a valid code {:?}", response_code)
    }
""","""    let mut cursor = Cursor::new(resp.as_slice());
    match resp.get(2..4) {
        Some([0x04, 0x20]) => Ok(TunnelingResponse::TunnelingRequest(TunnelingRequest::from_packet(&mut cursor)?)),
        Some([0x04, 0x21]) => TunnelingAck::from_packet(&mut cursor).map(TunnelingResponse::TunnelingAck),
        Some([0x04, 0x23]) => FeatureResp::from_packet(&mut cursor).map(TunnelingResponse::FeatureResponse),
        Some([0x02, 0x0a]) => Ok(TunnelingResponse::DisconnectResponse(DisconnectResponse::from_packet(&mut cursor)?)),
        Some([0x02, 0x08]) => Ok(TunnelingResponse::ConnectionstateResponse(ConnectionstateResponse::from_packet(&mut cursor)?)),
        Some([0x02, 0x09]) => {
            let req = DisconnectRequest::from_packet(&mut cursor)?;
            Ok(TunnelingResponse::DisconnectRequest(req))
        }
        Some(code) => whatever!("Unknown response code {:?}", code),
        None => whatever!("Tunneling response without a valid code"),
    }
""")]),
('r-parse-u16','',[(U,"""    if response_code.is_some() {
        if response_code == Some(&[0x04, 0x20]) {""","""    if response_code.is_some() {
        let code = u16::from_be_bytes([resp[2], resp[3]]);
        if code == 0x0420 {"""),(U,"response_code == Some(&vec![0x02, 0x09])","code == 0x0209"),(U,"response_code == Some(&[0x04, 0x21])","code == 0x0421")]),
('r-recv-buf-outside','',[(U,"""    loop {
        let mut data = vec![0; MAX_DATAGRAM_SIZE];
        let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;

        if count > 0 {
            data.truncate(count);
            let resp = parse_response(data)?;
""","""    let mut data = [0u8; MAX_DATAGRAM_SIZE];
    loop {
        let count = match socket.recv(&mut data).await {
            Ok(count) => count,
            Err(e) => whatever!("UPD Socket was closed {:?}", e),
        };

        if count > 0 {
            let resp = parse_response(data[..count].to_vec())?;
""")]),
('r-recv-continue','',[(U,"""        if count > 0 {
            data.truncate(count);
            let resp = parse_response(data)?;

            match resp {""","""        if count == 0 {
            continue;
        }
        {
            data.truncate(count);

            let resp = match parse_response(data) {
                Ok(resp) => resp,
                Err(e) => return Err(e.into()),
            };
            match resp {""")]),
('r-on-message','',[(U,"""            let resp = parse_response(data)?;

            match resp {
                TunnelingResponse::TunnelingRequest(req) => {""","""            let resp = parse_response(data)?;

            if let TunnelingResponse::TunnelingAck(ack) = &resp {
                trace!("Ack {:?}", ack);
                continue;
            }
            match resp {
                TunnelingResponse::TunnelingRequest(req) => {""")]),
('r-while-connected','',[(U,"""                'main: loop {
                    // If connection data is none we don't have a valid connection
                    // with KNXIP device
                    //
                    if connection_data.lock().await.is_none() {""","""                let mut closed = false;
                while !closed {
                    // If connection data is none we don't have a valid connection
                    // with KNXIP device
                    //
                    if connection_data.lock().await.is_none() {"""),(U,"""                                    debug!("Exit from reconnection loop");
                                    *connection_data.lock().await = None;
                                    break 'main;
                                } else {
                                    break 'recv;
                                }""","""                                    debug!("Exit from reconnection loop");
                                    closed = true;
                                }
                                break 'recv;""")]),
('r-heartbeat-helper','',[(U,"""                                let req = match connection_data.lock().await.as_ref() {
                                    Some(data) => {
                                        ConnectionstateRequest::new(
                                            data.communication_channel_id,
                                            data.control_endpoint.clone(),
                                        )
                                    },
                                    None => break,
                                };
                                if let Err(e) = socket.send(&req.packet()).await {
                                    warn!("Unable to send connection state request {:?}", e);
                                    break;
                                };
""","""                                if send_heart_beat(&socket, &connection_data).await.is_err() {
                                    break;
                                }
"""),(U,"""pub(crate) async fn handle_recv_from""","""async fn send_heart_beat(socket: &MyUdpSocket, connection_data: &Mutex<Option<ConnectionData>>) -> Result<(), Whatever> {
    let req = {
        let guard = connection_data.lock().await;
        let Some(data) = guard.as_ref() else {
            whatever!("Disconnected");
        };
        ConnectionstateRequest::new(data.communication_channel_id, data.control_endpoint.clone())
    };
    match socket.send(&req.packet()).await {
        Ok(_) => Ok(()),
        Err(e) => {
            warn!("Unable to send connection state request {:?}", e);
            whatever!("Unable to send {:?}", e)
        }
    }
}

pub(crate) async fn handle_recv_from""")]),
('r-establish-helper','',[(U,"""                        let connection = connect(socket.clone()).await;
                        let communication_channel_id = connection.get_communication_channel_id();

                        info!("Created communication channel ID {:?}", communication_channel_id);
                        let mut connection_data = connection_data.lock().await;
                        *connection_data = Some(ConnectionData::from_connection_response(connection));
""","""                        let connection = connect(socket.clone()).await;
                        info!("Created communication channel ID {:?}", connection.get_communication_channel_id());
                        connection_data.lock().await.replace(ConnectionData::from_connection_response(connection));
"""),(U,"""                    let mut data = connection_data.lock().await;
                    *data = None;
                }
                debug""","""                    connection_data.lock().await.take();
                }
                debug""")]),
('r-session-fn','',[(M,"""                        let mut active_on_connection = Vec::new();
                        let mut on_connection = on_connection.lock().await;
                        for tx in on_connection.iter() {
                            // A listener that does not read must not stop the session
                            //
                            if !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                active_on_connection.push(tx.clone());
                            }
                        }
                        *on_connection = active_on_connection;
""","""                        on_connection
                            .lock()
                            .await
                            .retain(|tx| !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))));
""")]),
('r-seq-iflet','',[(U,"""        match self.connection_data.lock().await.as_mut() {
            Some(data) => {
                let num = data.sequence_nr;
                data.sequence_nr = data.sequence_nr.wrapping_add(1);
                Ok((data.communication_channel_id, num))
            }
            None => whatever!("Disconnected from knx device, NR"),
        }""","""        let mut guard = self.connection_data.lock().await;
        if let Some(data) = guard.as_mut() {
            let next = data.sequence_nr.wrapping_add(1);
            let num = std::mem::replace(&mut data.sequence_nr, next);
            return Ok((data.communication_channel_id, num));
        }
        whatever!("Disconnected from knx device, NR")"""),(M,"""                data.sequence_nr = data.sequence_nr.wrapping_add(1);""","""                data.sequence_nr = ((num as u16 + 1) % 256) as u8;""")]),
('r-tunnel-inline','',[(U,"""        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
        debug!("TunnelingRequest {:?}", tunneled_req);
        let req = tunneled_req.packet();
        debug!("======================");
        debug!("[OUT] Raw tunnel request: {:02x?}", req);
        debug!("======================");
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        Ok(())""","""        let (channel, nr) = self.get_next_sequence_nr().await?;
        let packet = TunnelingRequest::new(channel, nr, req).packet();
        debug!("[OUT] Raw tunnel request: {:02x?}", packet);
        self.socket
            .send(&packet)
            .await
            .map(|_| ())
            .with_whatever_context(|e| format!("Unable to send request {:?}", e))""")]),
('r-read-restructure','',[(U,"""            match timeout(self.get_read_timeout(), rx.recv()).await {
                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                    let data_con = LDataCon::from_cemi(cemi);
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                }
                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
                    let data_ind = LDataInd::from_cemi(cemi)?;
                    debug!("Parsed indication cEMI {:?}", data_ind);
                    // Only group value response and write carry a value
                    //
                    if data_ind.l_data.dest == expected_addr && matches!(data_ind.apci, 1 | 2) {
                        return Ok(data_ind.value);
                    }
                }
                Ok(Some(cemi)) => warn!("Unknown cEMI message code {:?}", cemi.msg_code),
                Ok(None) => whatever!("No more data will be received from client"),
                Err(_) => whatever!("Request timed out"),
            }""","""            let received = match timeout(self.get_read_timeout(), rx.recv()).await {
                Ok(received) => received,
                Err(_) => whatever!("Request timed out"),
            };
            let Some(cemi) = received else {
                whatever!("No more data will be received from client");
            };
            if cemi.msg_code != CEMIMessageCode::LDataInd as u8 {
                debug!("Skip {:?}", cemi.msg_code);
                continue;
            }
            let data_ind = LDataInd::from_cemi(cemi)?;
            let carries_value = data_ind.apci == 1 || data_ind.apci == 2;
            if carries_value && data_ind.l_data.dest == expected_addr {
                return Ok(data_ind.value);
            }""")]),
('r-next-helper','',[(U,"""            match timeout(self.get_write_timeout(), rx.recv()).await {
                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                    let data_con = LDataCon::from_cemi(cemi)?;
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                    ensure_whatever!(data_con.confirm, "Write request was not confirmed by the bus");
                    return Ok(());
                }
                Ok(Some(cemi)) => debug!("Skip cEMI message code {:?}", cemi.msg_code),
                Ok(None) => whatever!("No more data will be received from client"),
                Err(_) => whatever!("Write request timed out"),
            }""","""            let cemi = self.next_cemi(&mut rx).await?;
            if cemi.msg_code == CEMIMessageCode::LDataCon as u8 {
                if !LDataCon::from_cemi(cemi)?.confirm {
                    whatever!("Write request was not confirmed by the bus");
                }
                return Ok(());
            }"""),(U,"""    pub async fn flush""","""    async fn next_cemi(&self, rx: &mut mpsc::Receiver<CEMI>) -> Result<CEMI, Whatever> {
        match timeout(self.get_write_timeout(), rx.recv()).await {
            Ok(Some(cemi)) => Ok(cemi),
            Ok(None) => whatever!("No more data will be received from client"),
            Err(_) => whatever!("Write request timed out"),
        }
    }

    pub async fn flush""")]),
('r-trait-gone','',[(U,"""    async fn get_control_endpoint(&self) -> Result<(u8, HPAI), Whatever> {
        match self.connection_data.lock().await.as_ref() {
            Some(data) => Ok((data.communication_channel_id, data.control_endpoint.clone())),
            None => whatever!("Disconnected from knx device, HPAI"),
        }
    }""","""    async fn get_control_endpoint(&self) -> Result<(u8, HPAI), Whatever> {
        let guard = self.connection_data.lock().await;
        guard
            .as_ref()
            .map(|data| (data.communication_channel_id, data.control_endpoint.clone()))
            .whatever_context("Disconnected from knx device, HPAI")
    }"""),(U,"use snafu::{ensure_whatever, whatever, ResultExt,","use snafu::{ensure_whatever, whatever, OptionExt, ResultExt,")]),
('r-connect-loop','',[(U,"""    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,
            Err(e) => {
                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        sleep(Duration::from_secs(10)).await;
    }""","""    let mut connection = try_connection(socket.clone()).await.ok();
    while connection.is_none() {
        warn!("Unable to connect with KNXIP device, retry in 10 seconds");
        sleep(Duration::from_secs(10)).await;
        connection = try_connection(socket.clone()).await.ok();
    }
    connection.unwrap()""")]),
('r-try-conn','',[(U,"""    let mut resp = vec![0; MAX_DATAGRAM_SIZE];
    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
        Ok(Ok(count)) => resp.truncate(count),
        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
        Err(e) => whatever!("Target device does not respond {:?}", e),
    }
    debug!("Connection response {:0x?}", resp);

    let mut resp_cursor = Cursor::new(resp.as_slice());
    let connection = ConnectionResponse::from_packet(&mut resp_cursor)?;
    debug!("Parsed Connection response {:?}", connection);

    let connection_status = connection.get_status();
    ensure_whatever!(connection_status == 0, "Connection returned an error {:?}", connection_status);

    Ok(connection)
""","""    const CONNECT_TIMEOUT: Duration = Duration::from_secs(30);
    let mut buf = [0u8; MAX_DATAGRAM_SIZE];
    let count = timeout(CONNECT_TIMEOUT, socket.recv(&mut buf))
        .await
        .with_whatever_context(|e| format!("Target device does not respond {:?}", e))?
        .with_whatever_context(|e| format!("Unable to receive connection response {:?}", e))?;
    let connection = ConnectionResponse::from_packet(&mut Cursor::new(&buf[..count]))?;
    match connection.get_status() {
        0 => Ok(connection),
        status => whatever!("Connection returned an error {:?}", status),
    }
""")]),
('r-search-timeout','',[(U,"""        let deadline = sleep(timeout);
        tokio::pin!(deadline);

        loop {
            select! {
                n_bytes = socket.recv(&mut buffer) => {""","""        let deadline = tokio::time::Instant::now() + timeout;

        loop {
            select! {
                n_bytes = socket.recv(&mut buffer) => {"""),(U,"""                _ = &mut deadline => {""","""                _ = tokio::time::sleep_until(deadline) => {""")]),
('r-search-timeout-at','',[(U,"""        let deadline = sleep(timeout);
        tokio::pin!(deadline);

        loop {
            select! {
                n_bytes = socket.recv(&mut buffer) => {
                    match n_bytes {
                        Ok(n_bytes) => {""","""        let deadline = tokio::time::Instant::now() + timeout;

        loop {
            match tokio::time::timeout_at(deadline, socket.recv(&mut buffer)).await {
                Ok(n_bytes) => {
                    match n_bytes {
                        Ok(n_bytes) => {"""),(U,"""                _ = &mut deadline => {""","""                Err(_) => {""")]),
('r-search-whole','',[(U,"""        let deadline = sleep(timeout);
        tokio::pin!(deadline);

        loop {
            select! {
                n_bytes = socket.recv(&mut buffer) => {
                    match n_bytes {
                        Ok(n_bytes) => {
                            let response = &buffer[..n_bytes];
                            debug!("Search response {:0x?}", response);
                            let mut cursor = Cursor::new(response);
                            match SearchResponse::from_packet(&mut cursor) {
                                Ok(resp) => {
                                    debug!("Parsed search response {:0x?}", resp);
                                    responses.push(resp);
                                }
                                Err(e) => warn!("Skip invalid search response {:?}", e),
                            }
                        },
                        Err(e) => {
                            whatever!("Unable to get response {:?}", e);
                        }
                    }
                },
                _ = &mut deadline => {
                     debug!("Search timeout received {} responses", responses.len());
                     break;
                }
            }
        }
        Ok(responses)""","""        let collect = async {
            loop {
                let n_bytes = socket
                    .recv(&mut buffer)
                    .await
                    .with_whatever_context(|e| format!("Unable to get response {:?}", e))?;
                if let Ok(resp) = SearchResponse::from_packet(&mut Cursor::new(&buffer[..n_bytes])) {
                    responses.push(resp);
                }
            }
        };
        let ended: Result<Result<(), Whatever>, _> = tokio::time::timeout(timeout, collect).await;
        if let Ok(Err(e)) = ended {
            return Err(e);
        }
        Ok(responses)""")]),
('r-disc-loop','',[(U,"""        match timeout(Duration::from_secs(10), async { while rx.recv().await.is_some() {} }).await {
            Ok(()) => Ok(()),
            Err(_) => whatever!("Disconnect request timed out"),
        }""","""        let closed = async {
            loop {
                if rx.recv().await.is_none() {
                    break;
                }
            }
        };
        timeout(Duration::from_secs(10), closed)
            .await
            .with_whatever_context(|_| "Disconnect request timed out".to_string())""")]),
('r-next-msg','',[(M,"""        loop {
            match rx.lock().await.recv().await {
                Some(cemi) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                    let data_con = LDataCon::from_cemi(cemi);
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                    continue;
                }
                Some(cemi) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
                    let data_ind = LDataInd::from_cemi(cemi)?;
                    debug!("Parsed indication cEMI {:?}", data_ind);
                    if data_ind.l_data.repetition {
                        warn!("This message is a repetition");
                    }
                    return Ok(data_ind);
                }
                Some(cemi) if cemi.msg_code == CEMIMessageCode::LBusmonInd as u8 => {
                    debug!("To parse busmod {:0x?}", cemi.service_info);
                    let data_ind = LDataInd::from_cemi(cemi)?;
                    debug!("Parsed indication cEMI {:?}", data_ind);
                    return Ok(data_ind);
                }
                Some(cemi) => {
                    debug!("Unknown CEMI message code {:?}", cemi);
                    continue;
                }
                None => {
                    whatever!("Transport is closed");
                }
            }
        }""","""        let mut rx = rx.lock().await;
        while let Some(cemi) = rx.recv().await {
            let is_ind = [CEMIMessageCode::LDataInd as u8, CEMIMessageCode::LBusmonInd as u8].contains(&cemi.msg_code);
            if is_ind {
                return LDataInd::from_cemi(cemi);
            }
            debug!("Skip {:?}", cemi);
        }
        whatever!("Transport is closed")""")]),
('r-req-helper','',[(U,"""        let apdu = APDU::group_value_read();
        let tpdu = TPDU::t_data_group(apdu);
        let req = LDataReqMessage::new(addr, tpdu);
        debug!("LDataReq {:?}", req);
""","""        let req = group_request(addr, APDU::group_value_read());
"""),(U,"""        let apdu = APDU::group_value_write(value, small);
        let tpdu = TPDU::t_data_group(apdu);
        let req = LDataReqMessage::new(addr, tpdu);
        debug!("LDataReq {:?}", req);
""","""        let req = group_request(addr, APDU::group_value_write(value, small));
"""),(U,"""pub struct UdpClient {""","""fn group_request(addr: KnxAddress, apdu: APDU) -> LDataReqMessage {
    let req = LDataReqMessage::new(addr, TPDU::t_data_group(apdu));
    debug!("LDataReq {:?}", req);
    req
}

pub struct UdpClient {""")]),
('r-status-scoped','',[(U,"""        let transport = self.transport.lock().await;
        transport.get_connectionstate().await""","""        self.transport.lock().await.get_connectionstate().await""")]),
('r-rename','',[(U,"""    timeout: Duration,
    transport: Arc<Mutex<UdpTransport>>,""","""    request_timeout: Duration,
    transport: Arc<Mutex<UdpTransport>>,"""),(U,"""            timeout: Duration::from_secs(10),
        })""","""            request_timeout: Duration::from_millis(10_000),
        })"""),(U,"""    fn get_read_timeout(&self) -> Duration {
        self.timeout.clone()""","""    fn get_read_timeout(&self) -> Duration {
        self.request_timeout"""),(U,"""    fn get_write_timeout(&self) -> Duration {
        self.timeout.clone()""","""    fn get_write_timeout(&self) -> Duration {
        self.request_timeout""")]),
('r-spawn-fn','',[(U,"""        tokio::spawn({
            let socket = socket.clone();
            let connection_data = connection_data.clone();

            async move {
                // Interval should""","""        tokio::spawn(run_session(socket.clone(), connection_data.clone(), from_knx_tx));

        Ok(Self {
            socket,
            connection_data,
            rx: Arc::new(Mutex::new(rx)),
        })
    }

    // Channel id and sequence number for the next request, both of the same connection
    //
    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
        match self.connection_data.lock().await.as_mut() {
            Some(data) => {
                let num = data.sequence_nr;
                data.sequence_nr = data.sequence_nr.wrapping_add(1);
                Ok((data.communication_channel_id, num))
            }
            None => whatever!("Disconnected from knx device, NR"),
        }
    }
@@A
                // Interval should"""),(U,"""                debug!("UpdTransport receive task exited");
            }
        });

        Ok(Self {
            socket,
            connection_data,
            rx: Arc::new(Mutex::new(rx)),
        })
    }

    // Channel id and sequence number for the next request, both of the same connection
    //
    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
        match self.connection_data.lock().await.as_mut() {
            Some(data) => {
                let num = data.sequence_nr;
                data.sequence_nr = data.sequence_nr.wrapping_add(1);
                Ok((data.communication_channel_id, num))
            }
            None => whatever!("Disconnected from knx device, NR"),
        }
    }
""","""                debug!("UpdTransport receive task exited");
@@B"""),],),
('r-mon-helper','',[(M,"""                                let req = {
                                    let guard = connection_data.lock().await;
                                    match guard.as_ref() {
                                        Some(data) => {
                                            ConnectionstateRequest::new(
                                                data.communication_channel_id,
                                                data.control_endpoint.clone(),
                                            )
                                        },
                                        None => break,
                                    }
                                };
""","""                                let guard = connection_data.lock().await;
                                let Some(data) = guard.as_ref() else { break };
                                let req = ConnectionstateRequest::new(data.communication_channel_id, data.control_endpoint.clone());
                                drop(guard);
"""),(M,"""                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() {
                            continue;
                        }
""","""                        if let Err(e) = enable_busmonitor(&socket, communication_channel_id).await {
                            warn!("Busmonitor not enabled {:?}", e);
                            continue;
                        }
""")]),
('r-mon-connected-order','',[(M,"""                        info!("Created communication channel ID {:?}", communication_channel_id);
                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));

                        let mut active_on_connection = Vec::new();
                        let mut on_connection = on_connection.lock().await;
                        for tx in on_connection.iter() {
                            // A listener that does not read must not stop the session
                            //
                            if !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                active_on_connection.push(tx.clone());
                            }
                        }
                        *on_connection = active_on_connection;""","""                        let data = ConnectionData::from_connection_response(connection);
                        info!("Created communication channel ID {:?}", data.communication_channel_id);
                        {
                            let mut guard = connection_data.lock().await;
                            *guard = Some(data);
                        }

                        let mut listeners = on_connection.lock().await;
                        let mut i = 0;
                        while i < listeners.len() {
                            match listeners[i].try_send(()) {
                                Err(mpsc::error::TrySendError::Closed(())) => {
                                    listeners.remove(i);
                                }
                                _ => i += 1,
                            }
                        }""")]),
('r-select-biased','',[(U,"""                        tokio::select! {
                            resp = &mut recv => {""","""                        tokio::select! {
                            biased;
                            resp = &mut recv => {""")]),
('r-box-recv','',[(U,"""                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
                    tokio::pin!(recv);
                    'recv: loop {
                        tokio::select! {
                            resp = &mut recv => {
                                info!("Recieve messages from knx device task exited with result {:?}", resp);
                                if resp.is_ok() {
                                    debug!("Exit from reconnection loop");
                                    *connection_data.lock().await = None;
                                    break 'main;
                                } else {
                                    break 'recv;
                                }
                            },""","""                    let mut recv = Box::pin(handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()));
                    'recv: loop {
                        tokio::select! {
                            resp = recv.as_mut() => {
                                match resp {
                                    Ok(reason) => {
                                        debug!("Exit from reconnection loop {}", reason);
                                        *connection_data.lock().await = None;
                                        break 'main;
                                    }
                                    Err(e) => {
                                        info!("Receive task exited {:?}", e);
                                        break 'recv;
                                    }
                                }
                            },""")]),
]
# r-spawn-fn is completed by text surgery: the block becomes a free function
def _spawn():
    t=open('/repo/src/transport/udp.rs').read()
    i=t.index("        tokio::spawn({\n            let socket"); j=t.index("            async move {\n",i)+len("            async move {\n")
    k=t.index('                debug!("UpdTransport receive task exited");\n',j)
    body=t[j:k]
    e=t.index("        });\n",k)+len("        });\n")
    fn="async fn run_session(socket: Arc<MyUdpSocket>, connection_data: Arc<Mutex<Option<ConnectionData>>>, from_knx_tx: Sender<CEMI>) {\n"+body+'    debug!("UpdTransport receive task exited");\n}\n\nimpl UdpTransport {\n    pub async fn connect'
    return [(U,t[i:e],"        tokio::spawn(run_session(socket.clone(), connection_data.clone(), from_knx_tx));\n"),(U,"impl UdpTransport {\n    pub async fn connect",fn)]
MUTS=[(m[0],m[1],_spawn()) if m[0]=='r-spawn-fn' else m for m in MUTS]
