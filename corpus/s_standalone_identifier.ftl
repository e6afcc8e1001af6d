foo
# ~ERROR E0003, pos 3, args "="
