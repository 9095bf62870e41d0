module verif

go 1.21

require (
	github.com/ajstarks/svgo v0.0.0-20200725142600-7a3c8b57fecb // indirect
	github.com/barnex/fftw v0.0.0-20181125072904-b800f77a10de
	github.com/barnex/matrix v0.0.0-20141117141426-1090b02beddd // indirect
	github.com/davidkleiven/gononlin v0.2.2
	github.com/davidkleiven/gosfft v1.0.2
	github.com/fsnotify/fsnotify v1.4.9 // indirect
	github.com/magiconair/properties v1.8.4 // indirect
	github.com/mattn/go-sqlite3 v2.0.3+incompatible
	github.com/mitchellh/go-homedir v1.1.0
	github.com/mitchellh/mapstructure v1.4.1 // indirect
	github.com/pelletier/go-toml v1.8.1 // indirect
	github.com/spf13/afero v1.5.1 // indirect
	github.com/spf13/cast v1.3.1 // indirect
	github.com/spf13/cobra v1.1.3
	github.com/spf13/jwalterweatherman v1.1.0 // indirect
	github.com/spf13/viper v1.7.1
	golang.org/x/exp v0.0.0-20210220032938-85be41e4509f
	golang.org/x/image v0.0.0-20210220032944-ac19c3e999fb // indirect
	golang.org/x/sys v0.0.0-20210313110737-8e9fff1a3a18 // indirect
	golang.org/x/tools v0.1.0 // indirect
	gonum.org/v1/exp v0.0.0-20210306211043-66e0a78a64f4
	gonum.org/v1/gonum v0.9.0
	gonum.org/v1/plot v0.9.0
	gopkg.in/ini.v1 v1.62.0 // indirect
)

require github.com/davidkleiven/gopf v0.0.0

require (
	github.com/fogleman/gg v1.3.0 // indirect
	github.com/go-fonts/liberation v0.1.1 // indirect
	github.com/go-latex/latex v0.0.0-20210118124228-b3d85cf34e07 // indirect
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0 // indirect
	github.com/hashicorp/hcl v1.0.0 // indirect
	github.com/phpdave11/gofpdf v1.4.2 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	github.com/subosito/gotenv v1.2.0 // indirect
	golang.org/x/text v0.3.5 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
)

replace github.com/davidkleiven/gopf => /repo
