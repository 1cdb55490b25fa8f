// A request outstanding when the server closes the websocket is answered with an error, not left waiting.
use bonsaidb::client::AsyncClient;
use bonsaidb::core::connection::AsyncStorageConnection;
use futures::StreamExt;
use std::time::Duration;

#[tokio::main]
async fn main() -> Result<(), Box<dyn std::error::Error>> {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await?;
    let addr = l.local_addr()?;
    tokio::spawn(async move {
        let (s, _) = l.accept().await.unwrap();
        let mut ws = tokio_tungstenite::accept_hdr_async(s, |r: &tokio_tungstenite::tungstenite::handshake::server::Request, mut p: tokio_tungstenite::tungstenite::handshake::server::Response| {
            p.headers_mut().insert("Sec-WebSocket-Protocol", r.headers().get("Sec-WebSocket-Protocol").unwrap().clone());
            Ok(p)
        }).await.unwrap();
        let _ = ws.next().await;
        ws.close(None).await.unwrap();
        while ws.next().await.is_some() {}
    });
    let client = AsyncClient::build(format!("ws://{addr}").parse()?).build()?;
    let r = tokio::time::timeout(Duration::from_secs(5), client.list_databases()).await;
    println!("{r:?}");
    assert!(matches!(r, Ok(Err(_))));
    Ok(())
}
