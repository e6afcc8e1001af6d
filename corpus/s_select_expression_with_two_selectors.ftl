err01 = { $foo $faa }
