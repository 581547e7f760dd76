EDITS=[('src/adnl/queries_cache.rs','''        let data = data_rx.await.ok();
        self.finished = true;
        data''','''        self.finished = true;
        data_rx.await.ok()''')]
META={'property':'A06','needs':'a query that ends by its timeout, or whose future is dropped while it waits','what_it_breaks':'the entry of a query that was not answered stays in the table of pending queries forever'}
