  err01 = A

key2 = {
a }

key3 = { a
}

key4 = {
{ a }}
