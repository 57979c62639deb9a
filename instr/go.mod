module fabinstr

go 1.23
