-term01 = Value
    .attr = Attribute

-term02 = {""}

# JUNK Missing value
-term03 =
    .attr = Attribute

# JUNK Missing value
#        <  whitespace  >
-term04 =                
    .attr1 = Attribute 1

# JUNK Missing value
-term05 =

# JUNK Missing value
#        <  whitespace  >
-term06 =                

# JUNK Missing =
-term07

-term08=Value
    .attr=Attribute

-term09   =  Value
    .attr  =   Attribute
