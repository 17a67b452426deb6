//! events as a stream of parsed `data:` lines
pub use client::EventClient;
pub mod client {
    use serde::de::DeserializeOwned;
    use std::{
        collections::VecDeque,
        marker::PhantomData,
        pin::Pin,
        task::{Context, Poll},
    };
    #[derive(Debug, Clone, Default)]
    pub struct EventClient {
        client: reqwest::Client,
    }
    impl EventClient {
        pub fn new(client: reqwest::Client) -> Self {
            Self { client }
        }
        pub async fn subscribe<T: DeserializeOwned>(&self, endpoint: &str) -> reqwest::Result<EventStream<T>> {
            let text = self.client.get(endpoint).header("accept", "text/event-stream").send().await?.text().await?;
            let lines = text.lines().filter_map(|l| l.strip_prefix("data:")).map(|l| l.trim().to_string()).collect();
            Ok(EventStream { lines, t: PhantomData })
        }
    }
    pub struct EventStream<T> {
        lines: VecDeque<String>,
        t: PhantomData<fn() -> T>,
    }
    impl<T: DeserializeOwned> futures_util::Stream for EventStream<T> {
        type Item = Result<T, serde_json::Error>;
        fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            Poll::Ready(self.lines.pop_front().map(|l| serde_json::from_str(&l)))
        }
    }
    impl<T: DeserializeOwned> EventStream<T> {
        pub fn take_all(self) -> Vec<Result<T, serde_json::Error>> {
            self.lines.iter().map(|l| serde_json::from_str(l)).collect()
        }
    }
}
