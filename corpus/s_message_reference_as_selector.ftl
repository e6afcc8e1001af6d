err1 =
    { foo ->
       *[1] One
    }
