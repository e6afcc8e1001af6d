-term = { $sel ->
        *[-2] Foo
    }
