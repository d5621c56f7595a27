module simgen

go 1.23
