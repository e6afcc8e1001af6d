key01 = Value

key02 = Value
    .attr = Attribute

key02 = Value
    .attr1 = Attribute 1
    .attr2 = Attribute 2

key03 =
    .attr = Attribute

key04 =
    .attr1 = Attribute 1
    .attr2 = Attribute 2

#      <  whitespace  >
key05 =                
    .attr1 = Attribute 1

no-whitespace=Value
    .attr1=Attribute 1

extra-whitespace    =  Value
    .attr1   =      Attribute 1

key06 = {""}

# JUNK Missing value
key07 =

# JUNK Missing =
key08

KEY09 = Value 09

key-10 = Value 10
key_11 = Value 11
key-12- = Value 12
key_13_ = Value 13

# JUNK Invalid id
0err-14 = Value 14

# JUNK Invalid id
err-15? = Value 15

# JUNK Invalid id
err-ąę-16 = Value 16
