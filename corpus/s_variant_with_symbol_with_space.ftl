-err01 = { $sel ->
        *[New York] Nowy Jork
    }
