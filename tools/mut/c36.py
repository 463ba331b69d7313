U='src/transport/udp.rs'; M='src/transport/udp_monitor.rs'
L='''                        let mut active_on_connection = Vec::new();
                        let mut on_connection = on_connection.lock().await;
                        for tx in on_connection.iter() {
                            // A listener that does not read must not stop the session
                            //
                            if !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                active_on_connection.push(tx.clone());
                            }
                        }
                        *on_connection = active_on_connection;
'''
STORE='''                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
'''
def r(n): return [(M,L,n)]
MUTS=[
('blocking','C36',r(L.replace("!matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_)))","tx.send(()).await.is_ok()"))),
('full-dropped','C36',r(L.replace("!matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_)))","tx.try_send(()).is_ok()"))),
('closed-kept','C36',r('''                        for tx in on_connection.lock().await.iter() {
                            let _ = tx.try_send(());
                        }
''')),
('stop-at-closed','C36',r(L.replace("active_on_connection.push(tx.clone());\n                            }","active_on_connection.push(tx.clone());\n                            } else {\n                                break;\n                            }"))),
('before-store','C36',[(M,STORE,''),(M,L,L.replace('*on_connection = active_on_connection;','*on_connection = active_on_connection;\n                        drop(on_connection);')+STORE)]),
('only-first','C36',[(M,"                'main: loop {","                let mut first = true;\n                'main: loop {"),(M,L,"                        if first {\n                        first = false;\n"+L+"                        }\n")]),
('write-back','C36',r('''                        let listeners = on_connection.lock().await.clone();
                        let mut active = Vec::new();
                        for tx in listeners {
                            if !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                active.push(tx);
                            }
                        }
                        *on_connection.lock().await = active;
''')),
('add-replaces','C36',[(M,"self.on_connection.lock().await.push(tx);","*self.on_connection.lock().await = vec![tx];")]),
('add-if-down','C36',[(M,"self.on_connection.lock().await.push(tx);","if !self.is_connected().await {\n            self.on_connection.lock().await.push(tx);\n        }")]),
('remove-skips','C36',r('''                        let mut listeners = on_connection.lock().await;
                        let mut i = 0;
                        while i < listeners.len() {
                            if matches!(listeners[i].try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                listeners.remove(i);
                            }
                            i += 1;
                        }
''')),
('first-only','C36',r('''                        let mut listeners = on_connection.lock().await;
                        if let Some(tx) = listeners.first() {
                            if matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                listeners.remove(0);
                            }
                        }
''')),
('twice','C36',r(L.replace("if !matches!","let _ = tx.try_send(());\n                            if !matches!"))),
('skip-2nd','C36',r(L.replace("on_connection.iter()","on_connection.iter().skip(1)"))),
('take-forget','C36',r('''                        let listeners = std::mem::take(&mut *on_connection.lock().await);
                        for tx in &listeners {
                            let _ = tx.try_send(());
                        }
                        on_connection.lock().await.extend(listeners.into_iter().filter(|tx| tx.capacity() > 0));
''')),
('ok-retain','',r('''                        on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))));
''')),
('ok-remove','',r('''                        let mut listeners = on_connection.lock().await;
                        let mut i = 0;
                        while i < listeners.len() {
                            if matches!(listeners[i].try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                listeners.remove(i);
                            } else {
                                i += 1;
                            }
                        }
''')),
('ok-is-closed','',r('''                        let mut listeners = on_connection.lock().await;
                        let mut open = Vec::with_capacity(listeners.len());
                        for tx in listeners.drain(..) {
                            if tx.is_closed() {
                                continue;
                            }
                            match tx.try_send(()) {
                                Ok(()) | Err(mpsc::error::TrySendError::Full(())) => open.push(tx),
                                Err(mpsc::error::TrySendError::Closed(())) => (),
                            }
                        }
                        *listeners = open;
''')),
('ok-take','',r('''                        let mut listeners = on_connection.lock().await;
                        for tx in std::mem::take(&mut *listeners) {
                            match tx.try_send(()) {
                                Ok(()) | Err(mpsc::error::TrySendError::Full(_)) => listeners.push(tx),
                                Err(_) => debug!("listener is gone"),
                            }
                        }
''')),
('ok-filter','',r('''                        let mut listeners = on_connection.lock().await;
                        let open: Vec<_> = listeners.iter().filter(|tx| !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_)))).cloned().collect();
                        *listeners = open;
''')),
('ok-fn','',[(M,L,"                        notify_listeners(&on_connection).await;\n"),(M,"async fn enable_busmonitor(",'''async fn notify_listeners(on_connection: &Mutex<Vec<mpsc::Sender<()>>>) {
    let mut listeners = on_connection.lock().await;
    let mut active = vec![];
    for i in 0..listeners.len() {
        let tx = &listeners[i];
        let closed = match tx.try_send(()) {
            Err(mpsc::error::TrySendError::Closed(_)) => true,
            Err(mpsc::error::TrySendError::Full(_)) | Ok(_) => false,
        };
        if !closed {
            active.push(tx.clone());
        }
    }
    *listeners = active;
}

async fn enable_busmonitor(''')]),
('ok-add','',[(M,"self.on_connection.lock().await.push(tx);","let mut listeners = self.on_connection.lock().await;\n        listeners.insert(0, tx);")]),
('ok-add2','',[(M,"self.on_connection.lock().await.push(tx);","let mut listeners = self.on_connection.lock().await;\n        listeners.retain(|l| !l.is_closed());\n        listeners.push(tx);")]),
]
CHECKS='C36'
