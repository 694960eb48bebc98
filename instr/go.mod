module inisim.invalid/instr

go 1.23
