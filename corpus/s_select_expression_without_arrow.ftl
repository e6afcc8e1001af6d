err01 = { $foo - }
