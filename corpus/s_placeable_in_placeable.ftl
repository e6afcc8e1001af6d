key1 = {{ foo }}

key2 = {  { foo }  }

key3 =
   {
     { foo }
   }

err1 = {  { foo }

err2 = { foo } }
