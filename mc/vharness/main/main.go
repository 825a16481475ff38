package main

import (
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	_ "github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/props"
)

func main() { mc.Main() }
