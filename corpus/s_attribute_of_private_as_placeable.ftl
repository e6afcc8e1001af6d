err1 = { -brand.gender }
