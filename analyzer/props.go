package main

import (
	_ "embed"
	"encoding/json"
)

//go:embed about.json
var aboutJSON []byte

// about is what each property says.
var about = func() map[string]string {
	m := map[string]string{}
	if err := json.Unmarshal(aboutJSON, &m); err != nil {
		panic(err)
	}
	return m
}()

func properties() []*property {
	return []*property{
		{"A01", []*ruleGroup{gAuthScope, gAuthOther, failuresIn("", "D1.AuthorizeIdentity")}},
		{"A02", []*ruleGroup{gObjectACL}},
		{"A03", []*ruleGroup{gRefusals}},
		{"A04", []*ruleGroup{gEncryptOp, failuresIn("", "D1.Encrypt")}},
		{"A05", []*ruleGroup{gUpdateOp, gDecryptOp, failuresIn("", "D1.Update", "D1.Decrypt")}},
		{"A06", []*ruleGroup{gGetGroups, gModifyGroups, failuresIn("", "D1.GetAccessGroups", "D1.AddGroupsToAccess", "D1.RemoveGroupsFromAccess")}},
		{"A07", []*ruleGroup{gDeleteOp, failuresIn("", "D1.Delete")}},
		{"A08", []*ruleGroup{gTokenOpen, gTokenIssue, failuresIn("", "D1.CreateToken", "D1.GetTokenContents")}},
		{"I01", []*ruleGroup{gIdentity, failuresIn("id", "Standalone.GetIdentity")}},
		{"I02", []*ruleGroup{gLogin, failuresIn("id", "Standalone.LoginUser", "Standalone.ChangeUserPassword")}},
		{"I03", []*ruleGroup{gMembership, failuresIn("id", "Standalone.AddUserToGroups", "Standalone.RemoveUserFromGroups")}},
		{"I04", []*ruleGroup{gNewUser, failuresIn("id", "Standalone.NewUser", "Standalone.NewGroup", "Standalone.DeleteUser")}},
		{"I05", []*ruleGroup{gScopes}},
		{"X01", []*ruleGroup{gIndexScope, gIndexRefusals}},
		{"X02", []*ruleGroup{gIndexSearch, failuresIn("index", "SecureIndex.Search")}},
		{"X03", []*ruleGroup{gIndexAdd, failuresIn("index", "SecureIndex.Add")}},
		{"X04", []*ruleGroup{gIndexDelete, failuresIn("index", "SecureIndex.Delete")}},
		{"B01", []*ruleGroup{gBinding}},
		{"B02", []*ruleGroup{gKeyUse, gKeyLength, gStaticKeys}},
		{"B03", []*ruleGroup{gSealedOnly}},
		{"B04", []*ruleGroup{gFresh}},
		{"B05", []*ruleGroup{gOpenFailsClosed, gUnseal}},
		{"B06", []*ruleGroup{gUnwrap}},
		{"B07", []*ruleGroup{gPassword}},
		{"B08", []*ruleGroup{gKMAC}},
		{"B09", []*ruleGroup{gLossless}},
		{"B10", []*ruleGroup{gHash}},
		{"B11", []*ruleGroup{gWrapRounds, gUnwrap}},
		{"B12", []*ruleGroup{gRoundTrip, gWrapRounds}},
		{"E01", []*ruleGroup{gObjectLife}},
		{"E02", []*ruleGroup{gAccountLife}},
		{"S01", []*ruleGroup{gStoreContract, gProxy}},
		{"S02", []*ruleGroup{gStoreKeys}},
		{"S03", []*ruleGroup{gStoreAtomic}},
		{"S04", []*ruleGroup{gStoreIsolated}},
		{"G01", []*ruleGroup{gFailures, gZeroOnError}},
		{"G02", []*ruleGroup{gCauses}},
		{"G03", []*ruleGroup{gNoSharedState, gLogger}},
		{"G04", []*ruleGroup{gArguments}},
		{"G05", []*ruleGroup{gLogs}},
		{"G06", []*ruleGroup{gContext}},
		{"R01", []*ruleGroup{gNoPanic}},
		{"G07", []*ruleGroup{gNoRefusal}},
		{"S05", []*ruleGroup{gDurable}},
		{"S06", []*ruleGroup{gPrivateFile}},
		{"G08", []*ruleGroup{gEnds}},
	}
}
