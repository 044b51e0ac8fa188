// Code generated by mkreg.sh. DO NOT EDIT.

package h

// Registry lists the harnesses for native replay.
var Registry = map[string]func(){
	"C01_List":         C01_List,
	"C01_One":          C01_One,
	"C01_Pair":         C01_Pair,
	"C01_Unsupported":  C01_Unsupported,
	"C01_Wide":         C01_Wide,
	"C02_One":          C02_One,
	"C02_Unsupported":  C02_Unsupported,
	"C03_Arg":          C03_Arg,
	"C03_Collation":    C03_Collation,
	"C03_Expr":         C03_Expr,
	"C04_Duration":     C04_Duration,
	"C04_DurationEnds": C04_DurationEnds,
	"C04_DurationMin":  C04_DurationMin,
	"C04_Pointer":      C04_Pointer,
	"C04_Time":         C04_Time,
	"C05_Bad":          C05_Bad,
	"C05_Deep":         C05_Deep,
	"C05_Leaf":         C05_Leaf,
	"C05_Node":         C05_Node,
	"C05_Reuse":        C05_Reuse,
	"C05_Tree":         C05_Tree,
	"C06_Between":      C06_Between,
	"C06_Binary":       C06_Binary,
	"C06_Date":         C06_Date,
	"C06_Functions":    C06_Functions,
	"C06_In":           C06_In,
	"C06_Long":         C06_Long,
	"C06_Unary":        C06_Unary,
	"C06_Wide":         C06_Wide,
	"C07_Capability":   C07_Capability,
	"C07_Delete":       C07_Delete,
	"C07_Prepared":     C07_Prepared,
	"C07_Reset":        C07_Reset,
	"C07_Stmt":         C07_Stmt,
	"C08_ID":           C08_ID,
	"C08_IDs":          C08_IDs,
	"C08_Many":         C08_Many,
	"C08_Names":        C08_Names,
	"C08_Row":          C08_Row,
	"C08_Rows":         C08_Rows,
	"C08_Wide":         C08_Wide,
	"C08_Width":        C08_Width,
	"C09_Long":         C09_Long,
	"C09_Names":        C09_Names,
	"C09_Sets":         C09_Sets,
	"C09_Size":         C09_Size,
	"C09_Wide":         C09_Wide,
	"C10_After":        C10_After,
	"C10_Append":       C10_Append,
	"C10_Capacity":     C10_Capacity,
	"C10_Empty":        C10_Empty,
	"C10_Long":         C10_Long,
	"C10_Seq":          C10_Seq,
	"C10_Wide":         C10_Wide,
	"C11_After":        C11_After,
	"C11_Block":        C11_Block,
	"C11_Fault":        C11_Fault,
	"C11_Inner":        C11_Inner,
	"C11_Reset":        C11_Reset,
	"C11_Wide":         C11_Wide,
	"C12_After":        C12_After,
	"C12_Block":        C12_Block,
	"C12_Conditions":   C12_Conditions,
	"C12_Deep":         C12_Deep,
	"C12_Level":        C12_Level,
	"C12_Nest":         C12_Nest,
	"C13_After":        C13_After,
	"C13_Block":        C13_Block,
	"C13_Deep":         C13_Deep,
	"C13_Failed":       C13_Failed,
	"C13_Insert":       C13_Insert,
	"C13_Nested":       C13_Nested,
	"C13_Shapes":       C13_Shapes,
	"C13_Update":       C13_Update,
	"C14_Early":        C14_Early,
	"C14_Frames":       C14_Frames,
	"C14_Kept":         C14_Kept,
	"C14_Many":         C14_Many,
	"C14_One":          C14_One,
	"C14_Reply":        C14_Reply,
	"C14_Rows":         C14_Rows,
	"C14_Wide":         C14_Wide,
	"C15_Auth":         C15_Auth,
	"C15_Later":        C15_Later,
	"C15_Long":         C15_Long,
	"C15_Mixed":        C15_Mixed,
	"C15_Ordinary":     C15_Ordinary,
	"C15_Other":        C15_Other,
	"C15_Wide":         C15_Wide,
	"C16_Any":          C16_Any,
	"C16_Auth":         C16_Auth,
	"C16_Frames":       C16_Frames,
	"C16_Long":         C16_Long,
	"C16_Malformed":    C16_Malformed,
	"C16_Second":       C16_Second,
	"C16_Zero":         C16_Zero,
	"C17_Again":        C17_Again,
	"C17_Auth":         C17_Auth,
	"C17_Fail":         C17_Fail,
	"C17_Send":         C17_Send,
	"C17_Steps":        C17_Steps,
	"C18_Exchange":     C18_Exchange,
	"C18_Native":       C18_Native,
	"C18_Plain":        C18_Plain,
	"C18_SHA256":       C18_SHA256,
	"C19_Login":        C19_Login,
	"C20_Cancel":       C20_Cancel,
	"C20_Login":        C20_Login,
	"C21_Big":          C21_Big,
	"C21_Cancelled":    C21_Cancelled,
	"C21_Failures":     C21_Failures,
	"C21_Meanwhile":    C21_Meanwhile,
	"C21_Order":        C21_Order,
	"C21_Sequence":     C21_Sequence,
	"C21_Three":        C21_Three,
	"C21_Two":          C21_Two,
	"C22_Again":        C22_Again,
	"C22_Big":          C22_Big,
	"C22_Cancelled":    C22_Cancelled,
	"C22_Send":         C22_Send,
	"C22_Sequence":     C22_Sequence,
	"C22_Two":          C22_Two,
	"C23_Decompose":    C23_Decompose,
	"C23_Signs":        C23_Signs,
	"C23_Step":         C23_Step,
	"C23_String":       C23_String,
	"C23_Window":       C23_Window,
	"C24_Allocate":     C24_Allocate,
	"C24_ForAppend":    C24_ForAppend,
	"C24_Insert":       C24_Insert,
	"C25_After":        C25_After,
	"C25_Dirty":        C25_Dirty,
	"C25_Empty":        C25_Empty,
	"C25_Reset":        C25_Reset,
	"C25_Twice":        C25_Twice,
	"C26_Any":          C26_Any,
	"C26_Binary":       C26_Binary,
	"C26_Large":        C26_Large,
	"C26_Named":        C26_Named,
}
