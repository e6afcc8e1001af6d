key1 =
    { 1 ->
       *[one] {""}
    }

err2 =
    { $sel ->
       *[one]
    }
