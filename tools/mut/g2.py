"""Failures that come out as success, or are dropped, in the synchronous transport."""
U='src/transport/udp.rs'
def m(o,n,f=U): return [(f,o,n)]
MUTS=[
('h-tunnel-senderr','C15',m('''        debug!("======================");
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        Ok(())''','''        debug!("======================");
        if let Err(e) = self.socket.send(&req).await {
            warn!("Unable to send request {:?}", e);
        }
        Ok(())''')),
('h-feature-senderr','C15',m('''        debug!("Raw tunnel request: {:02x?}", req);
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }''','''        debug!("Raw tunnel request: {:02x?}", req);
        if let Err(e) = self.socket.send(&req).await {
            warn!("Unable to send request {:?}", e);
        }''')),
('h-disc-tmo','C13',m('whatever!("Disconnect request timed out")','Ok(())')),
('h-disc-nosend','C13',m('''        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }

        // The''','''        if let Err(e) = self.socket.send(&req).await {
            warn!("Unable to send request {:?}", e);
            return Ok(());
        }

        // The''')),
('h-disc-noconn','C13',m('''    pub async fn disconnect(&self) -> Result<(), Whatever> {
        let (communication_channel_id, control_endpoint) = self.get_control_endpoint().await?;''','''    pub async fn disconnect(&self) -> Result<(), Whatever> {
        let (communication_channel_id, control_endpoint) = match self.get_control_endpoint().await {
            Ok(r) => r,
            Err(_) => (0, HPAI::any_ipv4_udp()),
        };''')),
('h-write-tmo','C22',m('''                Err(_) => whatever!("Write request timed out"),''','''                Err(_) => return Ok(()),''')),
('h-write-none','C22',m('''                Ok(None) => whatever!("No more data will be received from client"),
                Err(_) => whatever!("Write request timed out"),''','''                Ok(None) => return Ok(()),
                Err(_) => whatever!("Write request timed out"),''')),
('h-read-none','C21',m('''                Ok(None) => whatever!("No more data will be received from client"),
                Err(_) => whatever!("Request timed out"),''','''                Ok(None) => return Ok(vec![]),
                Err(_) => whatever!("Request timed out"),''')),
('h-read-tmo','C21',m('''Err(_) => whatever!("Request timed out"),''','''Err(_) => return Ok(Vec::new()),''')),
('h-state-trunc','C35',m('''            Ok(Ok(count)) => resp.truncate(count),
            Ok(Err(e)) => whatever!("Connectionstate not responded {:?}", e),''','''            Ok(Ok(count)) => debug!("{} octets", count),
            Ok(Err(e)) => whatever!("Connectionstate not responded {:?}", e),''')),
('h-try-recverr','C16',m('''            Ok(Ok(count)) => resp.truncate(count),
        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),'''.replace('            Ok(Ok','        Ok(Ok'),'''        Ok(Ok(count)) => resp.truncate(count),
        Ok(Err(e)) => warn!("Unable to receive connection response {:?}", e),''')),
('h-try-senderr','C16',m('''    if let Err(e) = socket.send(&req).await {
        whatever!("Unable to send connection request {:?}", e);
    }''','''    if let Err(e) = socket.send(&req).await {
        warn!("Unable to send connection request {:?}", e);
    }''')),
('h-recv-err','C13',m('''let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;''','''let count = match socket.recv(&mut data).await {
            Ok(count) => count,
            Err(e) => break Ok(format!("UPD Socket was closed {:?}", e)),
        };''')),
('h-recv-skip','C17',m('''let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;''','''let count = match socket.recv(&mut data).await {
            Ok(count) => count,
            Err(e) => {
                warn!("{:?}", e);
                continue;
            }
        };''')),
('h-dreq-ok','C13',m('''whatever!("KNX device requested disconnection");''','''break Ok("KNX device requested disconnection".into());''')),
('h-dresp-err','C13',m('''warn!("Unable to disconnect, status code {:?}", resp);''','''whatever!("Unable to disconnect, status code {:?}", resp);''')),
('h-chan-drop','C11',m('''                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),''','''                        Err(e) => break Ok(format!("Unable to pass received request from knx device, {:?}", e)),''')),
('h-chan-try','C11',m('''match from_knx_tx.send(cemi).await {''','''match from_knx_tx.try_send(cemi) {''')),
('h-read-con-neg','C21',m('''                    let data_con = LDataCon::from_cemi(cemi);
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                }''','''                    let data_con = LDataCon::from_cemi(cemi);
                    if let Ok(c) = &data_con { if c.l_data.dest == expected_addr { return Ok(c.value.clone()); } }
                }''')),
('h-hb-senderr','C17',m('''                                    warn!("Unable to send connection state request {:?}", e);
                                    break;''','''                                    warn!("Unable to send connection state request {:?}", e);''')),
('h-zero-exit','C32',m('''        if count > 0 {
            data.truncate(count);''','''        if count == 0 {
            break Ok("closed".into());
        }
        {
            data.truncate(count);''')),
('h-main-exit','C32',m('''                                if resp.is_ok() {
                                    debug!("Exit from reconnection loop");''','''                                if resp.is_ok() || from_knx_tx.capacity() == 0 {
                                    debug!("Exit from reconnection loop");''')),
('h-seq-late','C14',m('''                data.sequence_nr = data.sequence_nr.wrapping_add(1);
                Ok((''','''                if num < 0xff { data.sequence_nr = num + 1; } else { data.sequence_nr = 1; }
                Ok((''')),
('h-hb-late','C17',m('''let mut heart_beat = interval(Duration::from_secs(60));
                // prev''','''let mut heart_beat = interval(Duration::from_secs(if cfg!(debug_assertions) { 120 } else { 60 }));
                // prev''')),
('h-read-apci','C21',m('matches!(data_ind.apci, 1 | 2)','data_ind.apci != 0')),
('h-read-last','C33',m('''        while rx.try_recv().is_ok() {}
        transport.tunnel_req(req.packet()).await?;
        loop {''','''        let _ = rx.try_recv();
        transport.tunnel_req(req.packet()).await?;
        loop {''')),
('h-write-con-order','C33',m('''        while rx.try_recv().is_ok() {}
        transport.tunnel_req(req.packet()).await?;
        debug!("Write''','''        if rx.len() > 1 { while rx.try_recv().is_ok() {} }
        transport.tunnel_req(req.packet()).await?;
        debug!("Write''')),
]
