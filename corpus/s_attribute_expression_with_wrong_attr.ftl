err1 = { foo.23 }
err2 = { foo. }
