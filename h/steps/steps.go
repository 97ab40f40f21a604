// Package steps lists the kinds of steps a job consists of, with arguments they can sensibly be run with.
package steps

import (
	"reflect"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/verif/vk"
)

// kinds of input a step is run on
const (
	None = iota
	Mono
	Chans // 3-4 mono channels
	Color
	HSL
)

// One kind of step: its constructor, its documented defaults, and arguments it can sensibly be run with.
type Kind struct {
	Name  string
	Ctor  interface{}
	Def   string // default parameters
	Input int
	Args  func(g *vk.G) []interface{}
}

func f32(g *vk.G, lo, hi float64) float32 { return float32(g.Float(lo, hi)) }

func drawSave(g *vk.G) string {
	return vk.OneOf(g, "", "", "aux%d.fits", "aux%02d.fit", "aux%d.tif", "aux%d.jpg")
}

var detectDef = `{"type":"starDetect","radius":16,"sigma":10,"badPixelSigma":0,"inOutRatio":10,"save":{"type":"save","filePattern":"","saveMode":0,"gamma":1}}`

func newDetect(g *vk.G) *pre.OpStarDetect {
	return pre.NewOpStarDetect(int32(g.Int(4, 12)), f32(g, 4, 12), 0, f32(g, 1, 2), vk.OneOf(g, "", "", "st%d.fits"))
}

func newDebayer(g *vk.G) *pre.OpDebayer {
	return pre.NewOpDebayer(vk.OneOf(g, "R", "G", "B", ""), vk.OneOf(g, "RGGB", "BGGR", "GRBG", "GBRG"))
}

type av = []interface{}

var Kinds = []Kind{
	{"load", ops.NewOpLoad, `{"id":0,"fileName":""}`, None, func(g *vk.G) av { return av{g.Int(0, 9), vk.OneOf(g, "in0.fits", "in1.fits", "nope.fits")} }},
	{"loadMany", ops.NewOpLoadMany, `{"filePatterns":null}`, None, func(g *vk.G) av {
		return av{vk.OneOf(g, []string{"in*.fits"}, []string{"in1.fits", "in0.fits"}, []string{"nope*"}, []string{"i?0.fits"})}
	}},
	{"save", ops.NewOpSave, `{"filePattern":"","saveMode":0,"gamma":1}`, Mono, func(g *vk.G) av {
		return av{vk.OneOf(g, "", "o%d.fits", "o%03d.tif", "o%d.jpg", "o%d.xyz"), ops.ExportMode(g.Int(0, 3)), f32(g, 0.5, 3)}
	}},
	{"calibrate", pre.NewOpCalibrate, `{"dark":"","flat":""}`, Mono, func(g *vk.G) av {
		return av{vk.OneOf(g, "", "in0.fits", "in1.fits"), vk.OneOf(g, "", "in1.fits", "in0.fits")}
	}},
	{"badPixel", pre.NewOpBadPixel, `{"sigmaLow":3,"sigmaHigh":5,"debayer":null}`, Mono, func(g *vk.G) av {
		d := newDebayer(g)
		if g.Chance(1, 3) {
			d = nil
		}
		return av{f32(g, 1, 6), f32(g, 1, 6), d}
	}},
	{"debayer", pre.NewOpDebayer, `{"channel":"","colorFilterArray":"RGGB"}`, Mono, func(g *vk.G) av {
		d := newDebayer(g)
		return av{d.Channel, d.ColorFilterArray}
	}},
	{"debandHoriz", pre.NewOpDebandHoriz, `{"percentile":50,"window":128,"sigma":3}`, Mono, func(g *vk.G) av {
		return av{f32(g, 1, 99), int32(g.Int(3, 60)), f32(g, 0.5, 4)}
	}},
	{"debandVert", pre.NewOpDebandVert, `{"percentile":50,"window":128,"sigma":3}`, Mono, func(g *vk.G) av {
		return av{f32(g, 1, 99), int32(g.Int(3, 60)), f32(g, 0.5, 4)}
	}},
	{"scaleOffset", pre.NewOpScaleOffset, `{"scale":1,"offset":0}`, Mono, func(g *vk.G) av { return av{f32(g, 0.1, 3), f32(g, -1, 1)} }},
	{"bin", pre.NewOpBin, `{"binSize":1}`, Mono, func(g *vk.G) av { return av{int32(g.Int(1, 4))} }},
	{"backExtract", pre.NewOpBackExtract, `{"gridSize":0,"hfrFactor":4,"sigma":1.5,"clip":0,"save":{"type":"save","filePattern":"","saveMode":0,"gamma":1}}`, Mono, func(g *vk.G) av {
		return av{int32(g.Int(4, 24)), f32(g, 0, 6), f32(g, 0.5, 3), int32(g.Int(0, 4)), drawSave(g)}
	}},
	{"starDetect", pre.NewOpStarDetect, strings.Replace(detectDef, `"type":"starDetect",`, "", 1), Mono, func(g *vk.G) av {
		return av{int32(g.Int(3, 14)), f32(g, 3, 20), vk.OneOf(g, 0, f32(g, 0, 3)), f32(g, 1, 12), drawSave(g)}
	}},
	{"matchHist", post.NewOpMatchHistogram, `{"mode":2}`, Mono, func(g *vk.G) av { return av{post.HistoNormMode(g.Int(0, 5))} }},
	{"align", post.NewOpAlign, `{"k":50,"threshold":1,"oobMode":0}`, Mono, func(g *vk.G) av {
		return av{int32(g.Int(3, 50)), f32(g, 0.3, 5), post.OutOfBoundsMode(g.Int(0, 2))}
	}},
	{"stack", stack.NewOpStack, `{"mode":6,"weighting":0,"sigmaLow":2.75,"sigmaHigh":2.75}`, Mono, func(g *vk.G) av {
		return av{stack.StackMode(g.Int(0, 6)), stack.StackWeighting(g.Int(0, 3)), f32(g, 0.5, 4), f32(g, 0.5, 4)}
	}},
	{"stackBatches", stack.NewOpStackBatches, `{"perBatch":{"type":"seq","steps":null}}`, Mono, func(g *vk.G) av {
		return av{ops.NewOpSequence(pre.NewOpScaleOffset(f32(g, 0.5, 2), f32(g, -1, 1)), stack.NewOpStack(stack.StackMode(g.Int(0, 6)), 0, f32(g, 0.5, 4), 2))}
	}},
	{"exportStats", ref.NewOpExportStats, `{"fileName":"out.html"}`, Mono, func(g *vk.G) av { return av{vk.OneOf(g, "", "a.html", "out.html")} }},
	{"filter", ref.NewOpFilter, `{"minStars":0}`, Mono, func(g *vk.G) av { return av{g.Int(0, 12)} }},
	{"selectRef", ref.NewOpSelectReference, `{"target":0,"mode":"%starsHFR","starDetect":` + detectDef + `}`, Mono, func(g *vk.G) av {
		return av{ref.SelRefTarget(g.Int(0, 1)), vk.OneOf(g, "%starsHFR", "%location", "%rgb", "0", "1", "in0.fits", "nope.fits", ""), newDetect(g)}
	}},
	{"rgbCombine", rgb.NewOpRGBCombine, `{}`, Chans, func(g *vk.G) av { return av{} }},
	{"rgbBalance", rgb.NewOpRGBBalance, `{"block":16,"border":0.1,"skipBright":0,"skipDim":0.75,"shadows":{"R":1,"G":1,"B":1},"highlights":{"R":1,"G":1,"B":1}}`, Color, func(g *vk.G) av {
		return av{int32(g.Int(4, 16)), f32(g, 0, 0.3), f32(g, 0, 0.4), f32(g, 0.5, 0.9), fits.RGB{R: f32(g, 0.5, 1), G: f32(g, 0.5, 1), B: f32(g, 0.5, 1)}, fits.RGB{R: f32(g, 0.5, 1), G: f32(g, 0.5, 1), B: f32(g, 0.5, 1)}}
	}},
	{"rgbToHSLuv", rgb.NewOpRGBToHSLuv, `{}`, Color, func(g *vk.G) av { return av{} }},
	{"hsluvToRGB", rgb.NewOpHSLuvToRGB, `{}`, HSL, func(g *vk.G) av { return av{} }},
	{"hslApplyLum", hsl.NewOpHSLApplyLum, `{}`, HSL, func(g *vk.G) av { return av{} }},
	{"hslScaleOffsetChannel", hsl.NewOpHSLScaleOffsetChannel, `{"channelID":2,"scale":1,"offset":0}`, HSL, func(g *vk.G) av {
		return av{g.Int(0, 2), f32(g, 0.3, 3), f32(g, -0.5, 0.5)}
	}},
	{"hslNeutralizeBackground", hsl.NewOpHSLNeutralizeBackground, `{"sigmaLow":0.75,"sigmaHigh":1}`, HSL, func(g *vk.G) av {
		a := g.Float(-0.5, 2)
		return av{float32(a), float32(a + g.Float(0.1, 2))}
	}},
	{"hslSaturationGamma", hsl.NewOpHSLSaturationGamma, `{"gamma":1.75,"sigma":0.75}`, HSL, func(g *vk.G) av { return av{f32(g, 0.5, 3), f32(g, -1, 2)} }},
	{"hslSelectiveSaturation", hsl.NewOpHSLSelectiveSaturation, `{"from":295,"to":40,"factor":1}`, HSL, func(g *vk.G) av {
		return av{f32(g, 0, 360), f32(g, 0, 360), f32(g, 0, 2)}
	}},
	{"hslRotateHue", hsl.NewOpHSLRotateHue, `{"from":100,"to":190,"offset":0,"sigma":1}`, HSL, func(g *vk.G) av {
		return av{f32(g, 0, 360), f32(g, 0, 360), f32(g, -180, 180), f32(g, -1, 2)}
	}},
	{"hslSCNR", hsl.NewOpHSLSCNR, `{"factor":0}`, HSL, func(g *vk.G) av { return av{f32(g, 0, 1)} }},
	{"hslMidtones", hsl.NewOpHSLMidtones, `{"mid":0,"black":2}`, HSL, func(g *vk.G) av { return av{f32(g, 0, 4), f32(g, 0, 4)} }},
	{"hslGamma", hsl.NewOpHSLGamma, `{"gamma":1}`, HSL, func(g *vk.G) av { return av{f32(g, 0.3, 3)} }},
	{"hslGammaPP", hsl.NewOpHSLGammaPP, `{"gamma":1,"sigma":1}`, HSL, func(g *vk.G) av { return av{f32(g, 0.3, 3), f32(g, -1, 2)} }},
	{"HSLUnsharpMask", hsl.NewOpHSLUnsharpMask, `{"sigma":1.5,"gain":0,"threshold":0.75}`, HSL, func(g *vk.G) av { return av{f32(g, 0.5, 3), f32(g, 0, 2), f32(g, -1, 2)} }},
	{"hslScaleBlack", hsl.NewOpHSLScaleBlack, `{"location":0}`, HSL, func(g *vk.G) av { return av{f32(g, 0, 0.2)} }},
	{"hslStretch", hsl.NewOpHSLStretchIterative, `{"location":0.1,"scale":0.004}`, HSL, func(g *vk.G) av { return av{f32(g, 0, 0.2), f32(g, 0, 0.02)} }},
	{"normRange", stretch.NewOpNormalizeRange, `{}`, Mono, func(g *vk.G) av { return av{} }},
	{"stretch", stretch.NewOpStretchIterative, `{"location":0.1,"scale":0.004}`, Mono, func(g *vk.G) av { return av{f32(g, 0, 0.2), f32(g, 0, 0.02)} }},
	{"midtones", stretch.NewOpMidtones, `{"mid":0,"black":1}`, Mono, func(g *vk.G) av { return av{f32(g, 0, 4), f32(g, 0, 4)} }},
	{"gamma", stretch.NewOpGamma, `{"gamma":1}`, Mono, func(g *vk.G) av { return av{f32(g, 0.3, 3)} }},
	{"gammaPP", stretch.NewOpGammaPP, `{"gamma":1,"sigma":1}`, Mono, func(g *vk.G) av { return av{f32(g, 0.3, 3), f32(g, -1, 2)} }},
	{"scaleBlack", stretch.NewOpScaleBlack, `{"location":0}`, Mono, func(g *vk.G) av { return av{f32(g, 0, 0.2)} }},
	{"gaussianBlur", stretch.NewOpGaussianBlur, `{"sigma":2}`, Mono, func(g *vk.G) av { return av{f32(g, 0, 4)} }},
	{"unsharpMask", stretch.NewOpUnsharpMask, `{"sigma":1.5,"gain":0,"threshold":1}`, Mono, func(g *vk.G) av { return av{f32(g, 0.5, 3), f32(g, 0, 2), f32(g, -1, 2)} }},
}

// New makes a step of the given kind from the given arguments.
func (k Kind) New(args []interface{}) ops.Operator {
	t := reflect.TypeOf(k.Ctor)
	var a []reflect.Value
	for i, x := range args {
		a = append(a, reflect.ValueOf(x).Convert(t.In(i)))
	}
	return reflect.ValueOf(k.Ctor).Call(a)[0].Interface().(ops.Operator)
}
