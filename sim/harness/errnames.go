//go:build go1.23

package main

import (
	"regexp"
	"strconv"
	"strings"
)

// The names ASHRAE 135 (clause 21) gives error classes and codes, in lower case
// and without separators.
var errClassNames = []string{"device", "object", "property", "resources", "security", "services", "vt", "communication"}

var errCodeNames = map[uint32]string{
	0: "other", 1: "authenticationfailed", 2: "configurationinprogress", 3: "devicebusy", 4: "dynamiccreationnotsupported",
	5: "fileaccessdenied", 6: "incompatiblesecuritylevels", 7: "inconsistentparameters", 8: "inconsistentselectioncriterion",
	9: "invaliddatatype", 10: "invalidfileaccessmethod", 11: "invalidfilestartposition", 12: "invalidoperatorname",
	13: "invalidparameterdatatype", 14: "invalidtimestamp", 15: "keygenerationerror", 16: "missingrequiredparameter",
	17: "noobjectsofspecifiedtype", 18: "nospaceforobject", 19: "nospacetoaddlistelement", 20: "nospacetowriteproperty",
	21: "novtsessionsavailable", 22: "propertyisnotalist", 23: "objectdeletionnotpermitted", 24: "objectidentifieralreadyexists",
	25: "operationalproblem", 26: "passwordfailure", 27: "readaccessdenied", 28: "securitynotsupported", 29: "servicerequestdenied",
	30: "timeout", 31: "unknownobject", 32: "unknownproperty", 34: "unknownvtclass", 35: "unknownvtsession", 36: "unsupportedobjecttype",
	37: "valueoutofrange", 38: "vtsessionalreadyclosed", 39: "vtsessionterminationfailure", 40: "writeaccessdenied",
	41: "charactersetnotsupported", 42: "invalidarrayindex", 43: "covsubscriptionfailed", 44: "notcovproperty", 45: "optionalfunctionalitynotsupported",
	46: "invalidconfigurationdata", 47: "datatypenotsupported", 48: "duplicatename", 49: "duplicateobjectid", 50: "propertyisnotanarray",
	51: "abortbufferoverflow", 52: "abortinvalidapduinthisstate", 53: "abortpreemptedbyhigherprioritytask", 54: "abortsegmentationnotsupported",
	55: "abortproprietary", 56: "abortother", 57: "invalidtag", 58: "networkdown", 59: "rejectbufferoverflow", 60: "rejectinconsistentparameters",
	61: "rejectinvalidparameterdatatype", 62: "rejectinvalidtag", 63: "rejectmissingrequiredparameter", 64: "rejectparameteroutofrange",
	65: "rejecttoomanyarguments", 66: "rejectundefinedenumeration", 67: "rejectunrecognizedservice", 68: "rejectproprietary",
	69: "rejectother", 70: "unknowndevice", 71: "unknownroute", 72: "valuenotinitialized", 73: "invalideventstate",
	74: "noalarmconfigured", 75: "logbufferfull", 76: "loggedvaluepurged", 77: "nopropertyspecified", 78: "notconfiguredfortriggeredlogging",
	79: "unknownsubscription", 80: "parameteroutofrange", 81: "listelementnotfound", 82: "busy", 83: "communicationdisabled",
	84: "success", 85: "accessdenied", 86: "baddestinationaddress", 87: "baddestinationdeviceid", 88: "badsignature",
	89: "badsourceaddress", 90: "badtimestamp", 91: "cannotusekey", 92: "cannotverifymessageid", 93: "correctkeyrevision",
	94: "destinationdeviceidrequired", 95: "duplicatemessage", 96: "encryptionnotconfigured", 97: "encryptionrequired",
	98: "incorrectkey", 99: "invalidkeydata", 100: "keyupdateinprogress", 101: "malformedmessage", 102: "notkeyserver",
	103: "securitynotconfigured", 104: "sourcesecurityrequired", 105: "toomanykeys", 106: "unknownauthenticationtype",
	107: "unknownkey", 108: "unknownkeyrevision", 109: "unknownsourcemessage", 110: "notroutertodnet", 111: "routerbusy",
	112: "unknownnetworkmessage", 113: "messagetoolong", 114: "securityerrorcode", 115: "addressingerror", 116: "writebdtfailed",
	117: "readbdtfailed", 118: "registerforeigndevicefailed", 119: "readfdtfailed", 120: "deletefdtentryfailed", 121: "distributebroadcastfailed",
	122: "unknownfilesize", 123: "abortapdutoolong", 124: "abortapplicationexceededreplytime", 125: "abortoutofresources",
	126: "aborttsmtimeout", 127: "abortwindowsizeoutofrange", 128: "filefull", 129: "inconsistentconfiguration", 130: "inconsistentobjecttype",
	131: "internalerror", 132: "notconfigured", 133: "outofmemory", 134: "valuetoolong", 135: "abortinsufficientsecurity",
	136: "abortsecurityerror",
}

var (
	wordRe  = regexp.MustCompile(`[0-9]+`)
	classRe = regexp.MustCompile(`(?i)class\W*(\S+?)[\s,;]+(?:\S+\s+)??(?:error\W*)?code\W*([^\s,;]+)`)
	sepRe   = regexp.MustCompile(`[^a-z0-9]+`)
)

// says reports whether the text s is, or contains, the number n or its name.
func says(s string, n uint32, names ...string) bool {
	for _, x := range wordRe.FindAllString(s, -1) {
		if x == strconv.Itoa(int(n)) {
			return true
		}
	}
	low := sepRe.ReplaceAllString(strings.ToLower(s), "")
	for _, x := range names {
		if strings.Contains(low, x) {
			return true
		}
	}
	return false
}

// mentions reports whether an error's text states the class and the code, by
// number or by name.
func mentions(text string, e [2]uint32) bool {
	var class, code []string
	if int(e[0]) < len(errClassNames) {
		class = []string{errClassNames[e[0]]}
	}
	if x := errCodeNames[e[1]]; x != "" {
		code = []string{x}
	}
	if ms := classRe.FindAllStringSubmatch(text, -1); len(ms) > 0 {
		for _, m := range ms {
			if says(m[1], e[0], class...) && (says(m[2], e[1]) || code != nil && sepRe.ReplaceAllString(strings.ToLower(m[2]), "") == code[0]) {
				return true
			}
		}
		return false
	}
	return says(text, e[0], class...) && says(text, e[1], code...)
}
