module schedtool

go 1.21
