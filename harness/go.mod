module claraverif

go 1.23
