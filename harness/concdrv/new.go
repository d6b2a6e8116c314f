package concdrv

func New(c Config) System {
	switch c.Sys {
	case "rwmap":
		return &rwSys{prop: c.Prop}
	case "synccache":
		return &scSys{prop: c.Prop}
	}
	if c.Sys == "refreshcache" {
		return &rcSys{prop: c.Prop}
	}
	panic("system " + c.Sys)
}
