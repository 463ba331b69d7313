U='src/transport/udp.rs'
C='src/packets/core.rs'
REQ='let req = SearchRequest::udp_unicast(local_addr).packet();'
SEND='.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))'
PUSH='responses.push(resp);'
REC='n_bytes = socket.recv(&mut buffer) => {'
def m(o,n,f=U): return [(f,o,n)]
MUTS=[
('g-multi','C24',m(REQ,'let req = SearchRequest::udp().packet();\n        let _ = local_addr;')),
('g-dedup','C24',m(PUSH,'if !responses.iter().any(|r: &SearchResponse| r.device_hardware.serial_number == resp.device_hardware.serial_number) {\n                                        responses.push(resp);\n                                    }')),
('g-front','C24',m(PUSH,'responses.insert(0, resp);')),
('g-cap','C24',m(PUSH,'if responses.len() < 32 {\n                                        responses.push(resp);\n                                    }')),
('g-mediums','C24',m(PUSH,'if resp.device_hardware.knx_medium == crate::packets::core::KnxMedium::TP1 { responses.push(resp); }')),
('g-short','C24',m('let response = &buffer[..n_bytes];','if n_bytes < 72 {\n                                continue;\n                            }\n                            let response = &buffer[..n_bytes];')),
('g-whole','C24',m('let response = &buffer[..n_bytes];','let _ = n_bytes;\n                            let response = &buffer[..];')),
('g-half','C24',m('sleep(timeout)','sleep(timeout / 2)')),
('g-min','C24',m('sleep(timeout)','sleep(timeout.max(Duration::from_secs(1)))')),
('g-after','C24',m('_ = &mut deadline => {','_ = &mut deadline, if !responses.is_empty() => {')),
('g-recverr','C24',m('whatever!("Unable to get response {:?}", e);','warn!("Unable to get response {:?}", e);\n                            break;')),
('g-twice','C24',m('        let mut buffer = vec![0; MAX_DATAGRAM_SIZE];\n        let mut responses','        let _ = socket.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await;\n        let mut buffer = vec![0; MAX_DATAGRAM_SIZE];\n        let mut responses')),
('g-local','C24',m(REQ,'let req = SearchRequest::udp_unicast(std::net::SocketAddrV4::new(*local_addr.ip(), DISCOVERY_ENDPOINT_PORT)).packet();')),
# harmless
('ok-tmo','',m('''        let deadline = sleep(timeout);
        tokio::pin!(deadline);
''','''        let deadline = tokio::time::sleep_until(tokio::time::Instant::now() + timeout);
        tokio::pin!(deadline);
''')),
('ok-collect-fn','',[(U,'''                            match SearchResponse::from_packet(&mut cursor) {
                                Ok(resp) => {
                                    debug!("Parsed search response {:0x?}", resp);
                                    responses.push(resp);
                                }
                                Err(e) => warn!("Skip invalid search response {:?}", e),
                            }
''','''                            responses.extend(SearchResponse::from_packet(&mut cursor).map_err(|e| warn!("Skip invalid search response {:?}", e)).ok());
''')]),
('ok-iflet','',[(U,'''                            match SearchResponse::from_packet(&mut cursor) {
                                Ok(resp) => {
                                    debug!("Parsed search response {:0x?}", resp);
                                    responses.push(resp);
                                }
                                Err(e) => warn!("Skip invalid search response {:?}", e),
                            }
''','''                            if let Ok(resp) = SearchResponse::from_packet(&mut cursor) {
                                responses.push(resp);
                            }
''')]),
('ok-recvfrom','',m(REC,'n_bytes = async { socket.recv_from(&mut buffer).await.map(|(n, _)| n) } => {')),
]
