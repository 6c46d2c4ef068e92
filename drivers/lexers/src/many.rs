//! A lexer of 320 definitions, more than 256 symbol classes and tags (written by a script).

#[derive(laps::lexer::Tokenize, Debug)]
pub enum Many {
  #[regex("一a")]
  V0(String),
  #[regex("七b+")]
  V1(String),
  #[regex("丆")]
  V2(String),
  #[regex("三丁?")]
  V3(String),
  #[regex("丌a")]
  V4(String),
  #[regex("丏b+")]
  V5(String),
  #[regex("丒")]
  V6(String),
  #[regex("丕丁?")]
  V7(String),
  #[regex("丘a")]
  V8(String),
  #[regex("丛b+")]
  V9(String),
  #[regex("丞")]
  V10(String),
  #[regex("両丁?")]
  V11(String),
  #[regex("两a")]
  V12(String),
  #[regex("丧b+")]
  V13(String),
  #[regex("个")]
  V14(String),
  #[regex("中丁?")]
  V15(String),
  #[regex("丰a")]
  V16(String),
  #[regex("丳b+")]
  V17(String),
  #[regex("丶")]
  V18(String),
  #[regex("丹丁?")]
  V19(String),
  #[regex("丼a")]
  V20(String),
  #[regex("丿b+")]
  V21(String),
  #[regex("乂")]
  V22(String),
  #[regex("久丁?")]
  V23(String),
  #[regex("么a")]
  V24(String),
  #[regex("之b+")]
  V25(String),
  #[regex("乎")]
  V26(String),
  #[regex("乑丁?")]
  V27(String),
  #[regex("乔a")]
  V28(String),
  #[regex("乗b+")]
  V29(String),
  #[regex("乚")]
  V30(String),
  #[regex("九丁?")]
  V31(String),
  #[regex("习a")]
  V32(String),
  #[regex("乣b+")]
  V33(String),
  #[regex("书")]
  V34(String),
  #[regex("乩丁?")]
  V35(String),
  #[regex("乬a")]
  V36(String),
  #[regex("乯b+")]
  V37(String),
  #[regex("乲")]
  V38(String),
  #[regex("乵丁?")]
  V39(String),
  #[regex("乸a")]
  V40(String),
  #[regex("乻b+")]
  V41(String),
  #[regex("乾")]
  V42(String),
  #[regex("亁丁?")]
  V43(String),
  #[regex("亄a")]
  V44(String),
  #[regex("亇b+")]
  V45(String),
  #[regex("亊")]
  V46(String),
  #[regex("亍丁?")]
  V47(String),
  #[regex("亐a")]
  V48(String),
  #[regex("亓b+")]
  V49(String),
  #[regex("亖")]
  V50(String),
  #[regex("亙丁?")]
  V51(String),
  #[regex("亜a")]
  V52(String),
  #[regex("亟b+")]
  V53(String),
  #[regex("亢")]
  V54(String),
  #[regex("亥丁?")]
  V55(String),
  #[regex("亨a")]
  V56(String),
  #[regex("享b+")]
  V57(String),
  #[regex("亮")]
  V58(String),
  #[regex("亱丁?")]
  V59(String),
  #[regex("亴a")]
  V60(String),
  #[regex("亷b+")]
  V61(String),
  #[regex("人")]
  V62(String),
  #[regex("亽丁?")]
  V63(String),
  #[regex("什a")]
  V64(String),
  #[regex("仃b+")]
  V65(String),
  #[regex("仆")]
  V66(String),
  #[regex("仉丁?")]
  V67(String),
  #[regex("仌a")]
  V68(String),
  #[regex("仏b+")]
  V69(String),
  #[regex("仒")]
  V70(String),
  #[regex("仕丁?")]
  V71(String),
  #[regex("付a")]
  V72(String),
  #[regex("仛b+")]
  V73(String),
  #[regex("仞")]
  V74(String),
  #[regex("仡丁?")]
  V75(String),
  #[regex("令a")]
  V76(String),
  #[regex("仧b+")]
  V77(String),
  #[regex("仪")]
  V78(String),
  #[regex("仭丁?")]
  V79(String),
  #[regex("仰a")]
  V80(String),
  #[regex("仳b+")]
  V81(String),
  #[regex("件")]
  V82(String),
  #[regex("仹丁?")]
  V83(String),
  #[regex("仼a")]
  V84(String),
  #[regex("仿b+")]
  V85(String),
  #[regex("伂")]
  V86(String),
  #[regex("伅丁?")]
  V87(String),
  #[regex("伈a")]
  V88(String),
  #[regex("伋b+")]
  V89(String),
  #[regex("伎")]
  V90(String),
  #[regex("休丁?")]
  V91(String),
  #[regex("伔a")]
  V92(String),
  #[regex("众b+")]
  V93(String),
  #[regex("会")]
  V94(String),
  #[regex("伝丁?")]
  V95(String),
  #[regex("传a")]
  V96(String),
  #[regex("伣b+")]
  V97(String),
  #[regex("伦")]
  V98(String),
  #[regex("伩丁?")]
  V99(String),
  #[regex("伬a")]
  V100(String),
  #[skip(" ")]
  Ws,
  #[regex("伯b+")]
  V101(String),
  #[regex("伲")]
  V102(String),
  #[regex("伵丁?")]
  V103(String),
  #[regex("伸a")]
  V104(String),
  #[regex("伻b+")]
  V105(String),
  #[regex("伾")]
  V106(String),
  #[regex("佁丁?")]
  V107(String),
  #[regex("佄a")]
  V108(String),
  #[regex("佇b+")]
  V109(String),
  #[regex("佊")]
  V110(String),
  #[regex("位丁?")]
  V111(String),
  #[regex("佐a")]
  V112(String),
  #[regex("体b+")]
  V113(String),
  #[regex("佖")]
  V114(String),
  #[regex("余丁?")]
  V115(String),
  #[regex("作a")]
  V116(String),
  #[regex("佟b+")]
  V117(String),
  #[regex("佢")]
  V118(String),
  #[regex("佥丁?")]
  V119(String),
  #[regex("佨a")]
  V120(String),
  #[regex("佫b+")]
  V121(String),
  #[regex("佮")]
  V122(String),
  #[regex("佱丁?")]
  V123(String),
  #[regex("佴a")]
  V124(String),
  #[regex("佷b+")]
  V125(String),
  #[regex("佺")]
  V126(String),
  #[regex("佽丁?")]
  V127(String),
  #[regex("侀a")]
  V128(String),
  #[regex("侃b+")]
  V129(String),
  #[regex("來")]
  V130(String),
  #[regex("侉丁?")]
  V131(String),
  #[regex("侌a")]
  V132(String),
  #[regex("侏b+")]
  V133(String),
  #[regex("侒")]
  V134(String),
  #[regex("侕丁?")]
  V135(String),
  #[regex("侘a")]
  V136(String),
  #[regex("供b+")]
  V137(String),
  #[regex("侞")]
  V138(String),
  #[regex("価丁?")]
  V139(String),
  #[regex("侤a")]
  V140(String),
  #[regex("侧b+")]
  V141(String),
  #[regex("侪")]
  V142(String),
  #[regex("侭丁?")]
  V143(String),
  #[regex("侰a")]
  V144(String),
  #[regex("侳b+")]
  V145(String),
  #[regex("侶")]
  V146(String),
  #[regex("侹丁?")]
  V147(String),
  #[regex("侼a")]
  V148(String),
  #[regex("便b+")]
  V149(String),
  #[regex("係")]
  V150(String),
  #[regex("俅丁?")]
  V151(String),
  #[regex("俈a")]
  V152(String),
  #[regex("俋b+")]
  V153(String),
  #[regex("俎")]
  V154(String),
  #[regex("俑丁?")]
  V155(String),
  #[regex("俔a")]
  V156(String),
  #[regex("俗b+")]
  V157(String),
  #[regex("俚")]
  V158(String),
  #[regex("保丁?")]
  V159(String),
  #[regex("俠a")]
  V160(String),
  #[regex("俣b+")]
  V161(String),
  #[regex("俦")]
  V162(String),
  #[regex("俩丁?")]
  V163(String),
  #[regex("俬a")]
  V164(String),
  #[regex("俯b+")]
  V165(String),
  #[regex("俲")]
  V166(String),
  #[regex("俵丁?")]
  V167(String),
  #[regex("俸a")]
  V168(String),
  #[regex("俻b+")]
  V169(String),
  #[regex("俾")]
  V170(String),
  #[regex("倁丁?")]
  V171(String),
  #[regex("倄a")]
  V172(String),
  #[regex("倇b+")]
  V173(String),
  #[regex("倊")]
  V174(String),
  #[regex("倍丁?")]
  V175(String),
  #[regex("倐a")]
  V176(String),
  #[regex("倓b+")]
  V177(String),
  #[regex("倖")]
  V178(String),
  #[regex("候丁?")]
  V179(String),
  #[regex("倜a")]
  V180(String),
  #[regex("借b+")]
  V181(String),
  #[regex("倢")]
  V182(String),
  #[regex("倥丁?")]
  V183(String),
  #[regex("倨a")]
  V184(String),
  #[regex("倫b+")]
  V185(String),
  #[regex("倮")]
  V186(String),
  #[regex("倱丁?")]
  V187(String),
  #[regex("倴a")]
  V188(String),
  #[regex("倷b+")]
  V189(String),
  #[regex("债")]
  V190(String),
  #[regex("倽丁?")]
  V191(String),
  #[regex("偀a")]
  V192(String),
  #[regex("偃b+")]
  V193(String),
  #[regex("偆")]
  V194(String),
  #[regex("偉丁?")]
  V195(String),
  #[regex("偌a")]
  V196(String),
  #[regex("偏b+")]
  V197(String),
  #[regex("偒")]
  V198(String),
  #[regex("偕丁?")]
  V199(String),
  #[regex("偘a")]
  V200(String),
  #[eof]
  End,
  #[regex("偛b+")]
  V201(String),
  #[regex("偞")]
  V202(String),
  #[regex("偡丁?")]
  V203(String),
  #[regex("偤a")]
  V204(String),
  #[regex("偧b+")]
  V205(String),
  #[regex("偪")]
  V206(String),
  #[regex("偭丁?")]
  V207(String),
  #[regex("偰a")]
  V208(String),
  #[regex("偳b+")]
  V209(String),
  #[regex("偶")]
  V210(String),
  #[regex("偹丁?")]
  V211(String),
  #[regex("偼a")]
  V212(String),
  #[regex("偿b+")]
  V213(String),
  #[regex("傂")]
  V214(String),
  #[regex("傅丁?")]
  V215(String),
  #[regex("傈a")]
  V216(String),
  #[regex("傋b+")]
  V217(String),
  #[regex("傎")]
  V218(String),
  #[regex("傑丁?")]
  V219(String),
  #[regex("傔a")]
  V220(String),
  #[regex("傗b+")]
  V221(String),
  #[regex("傚")]
  V222(String),
  #[regex("傝丁?")]
  V223(String),
  #[regex("傠a")]
  V224(String),
  #[regex("傣b+")]
  V225(String),
  #[regex("傦")]
  V226(String),
  #[regex("傩丁?")]
  V227(String),
  #[regex("催a")]
  V228(String),
  #[regex("傯b+")]
  V229(String),
  #[regex("傲")]
  V230(String),
  #[regex("債丁?")]
  V231(String),
  #[regex("傸a")]
  V232(String),
  #[regex("傻b+")]
  V233(String),
  #[regex("傾")]
  V234(String),
  #[regex("僁丁?")]
  V235(String),
  #[regex("僄a")]
  V236(String),
  #[regex("僇b+")]
  V237(String),
  #[regex("僊")]
  V238(String),
  #[regex("働丁?")]
  V239(String),
  #[regex("僐a")]
  V240(String),
  #[regex("僓b+")]
  V241(String),
  #[regex("僖")]
  V242(String),
  #[regex("僙丁?")]
  V243(String),
  #[regex("僜a")]
  V244(String),
  #[regex("僟b+")]
  V245(String),
  #[regex("僢")]
  V246(String),
  #[regex("僥丁?")]
  V247(String),
  #[regex("僨a")]
  V248(String),
  #[regex("僫b+")]
  V249(String),
  #[regex("僮")]
  V250(String),
  #[regex("僱丁?")]
  V251(String),
  #[regex("僴a")]
  V252(String),
  #[regex("僷b+")]
  V253(String),
  #[regex("僺")]
  V254(String),
  #[regex("僽丁?")]
  V255(String),
  #[regex("儀a")]
  V256(String),
  #[regex("儃b+")]
  V257(String),
  #[regex("儆")]
  V258(String),
  #[regex("儉丁?")]
  V259(String),
  #[regex("儌a")]
  V260(String),
  #[regex("儏b+")]
  V261(String),
  #[regex("儒")]
  V262(String),
  #[regex("儕丁?")]
  V263(String),
  #[regex("儘a")]
  V264(String),
  #[regex("儛b+")]
  V265(String),
  #[regex("儞")]
  V266(String),
  #[regex("儡丁?")]
  V267(String),
  #[regex("儤a")]
  V268(String),
  #[regex("儧b+")]
  V269(String),
  #[regex("優")]
  V270(String),
  #[regex("儭丁?")]
  V271(String),
  #[regex("儰a")]
  V272(String),
  #[regex("儳b+")]
  V273(String),
  #[regex("儶")]
  V274(String),
  #[regex("儹丁?")]
  V275(String),
  #[regex("儼a")]
  V276(String),
  #[regex("儿b+")]
  V277(String),
  #[regex("兂")]
  V278(String),
  #[regex("充丁?")]
  V279(String),
  #[regex("先a")]
  V280(String),
  #[regex("克b+")]
  V281(String),
  #[regex("兎")]
  V282(String),
  #[regex("兑丁?")]
  V283(String),
  #[regex("兔a")]
  V284(String),
  #[regex("兗b+")]
  V285(String),
  #[regex("党")]
  V286(String),
  #[regex("兝丁?")]
  V287(String),
  #[regex("兠a")]
  V288(String),
  #[regex("兣b+")]
  V289(String),
  #[regex("兦")]
  V290(String),
  #[regex("兩丁?")]
  V291(String),
  #[regex("公a")]
  V292(String),
  #[regex("兯b+")]
  V293(String),
  #[regex("兲")]
  V294(String),
  #[regex("兵丁?")]
  V295(String),
  #[regex("典a")]
  V296(String),
  #[regex("养b+")]
  V297(String),
  #[regex("兾")]
  V298(String),
  #[regex("冁丁?")]
  V299(String),
  #[regex("冄a")]
  V300(String),
  #[regex("冇b+")]
  V301(String),
  #[regex("冊")]
  V302(String),
  #[regex("再丁?")]
  V303(String),
  #[regex("冐a")]
  V304(String),
  #[regex("冓b+")]
  V305(String),
  #[regex("冖")]
  V306(String),
  #[regex("写丁?")]
  V307(String),
  #[regex("农a")]
  V308(String),
  #[regex("冟b+")]
  V309(String),
  #[regex("冢")]
  V310(String),
  #[regex("冥丁?")]
  V311(String),
  #[regex("冨a")]
  V312(String),
  #[regex("冫b+")]
  V313(String),
  #[regex("冮")]
  V314(String),
  #[regex("冱丁?")]
  V315(String),
  #[regex("冴a")]
  V316(String),
  #[regex("冷b+")]
  V317(String),
  #[regex("冺")]
  V318(String),
  #[regex("冽丁?")]
  V319(String),
}
/// The expressions, in the order of the variants, the skipped one last.
pub const PATTERNS: &[&str] = &["一a", "七b+", "丆", "三丁?", "丌a", "丏b+", "丒", "丕丁?", "丘a", "丛b+", "丞", "両丁?", "两a", "丧b+", "个", "中丁?", "丰a", "丳b+", "丶", "丹丁?", "丼a", "丿b+", "乂", "久丁?", "么a", "之b+", "乎", "乑丁?", "乔a", "乗b+", "乚", "九丁?", "习a", "乣b+", "书", "乩丁?", "乬a", "乯b+", "乲", "乵丁?", "乸a", "乻b+", "乾", "亁丁?", "亄a", "亇b+", "亊", "亍丁?", "亐a", "亓b+", "亖", "亙丁?", "亜a", "亟b+", "亢", "亥丁?", "亨a", "享b+", "亮", "亱丁?", "亴a", "亷b+", "人", "亽丁?", "什a", "仃b+", "仆", "仉丁?", "仌a", "仏b+", "仒", "仕丁?", "付a", "仛b+", "仞", "仡丁?", "令a", "仧b+", "仪", "仭丁?", "仰a", "仳b+", "件", "仹丁?", "仼a", "仿b+", "伂", "伅丁?", "伈a", "伋b+", "伎", "休丁?", "伔a", "众b+", "会", "伝丁?", "传a", "伣b+", "伦", "伩丁?", "伬a", "伯b+", "伲", "伵丁?", "伸a", "伻b+", "伾", "佁丁?", "佄a", "佇b+", "佊", "位丁?", "佐a", "体b+", "佖", "余丁?", "作a", "佟b+", "佢", "佥丁?", "佨a", "佫b+", "佮", "佱丁?", "佴a", "佷b+", "佺", "佽丁?", "侀a", "侃b+", "來", "侉丁?", "侌a", "侏b+", "侒", "侕丁?", "侘a", "供b+", "侞", "価丁?", "侤a", "侧b+", "侪", "侭丁?", "侰a", "侳b+", "侶", "侹丁?", "侼a", "便b+", "係", "俅丁?", "俈a", "俋b+", "俎", "俑丁?", "俔a", "俗b+", "俚", "保丁?", "俠a", "俣b+", "俦", "俩丁?", "俬a", "俯b+", "俲", "俵丁?", "俸a", "俻b+", "俾", "倁丁?", "倄a", "倇b+", "倊", "倍丁?", "倐a", "倓b+", "倖", "候丁?", "倜a", "借b+", "倢", "倥丁?", "倨a", "倫b+", "倮", "倱丁?", "倴a", "倷b+", "债", "倽丁?", "偀a", "偃b+", "偆", "偉丁?", "偌a", "偏b+", "偒", "偕丁?", "偘a", "偛b+", "偞", "偡丁?", "偤a", "偧b+", "偪", "偭丁?", "偰a", "偳b+", "偶", "偹丁?", "偼a", "偿b+", "傂", "傅丁?", "傈a", "傋b+", "傎", "傑丁?", "傔a", "傗b+", "傚", "傝丁?", "傠a", "傣b+", "傦", "傩丁?", "催a", "傯b+", "傲", "債丁?", "傸a", "傻b+", "傾", "僁丁?", "僄a", "僇b+", "僊", "働丁?", "僐a", "僓b+", "僖", "僙丁?", "僜a", "僟b+", "僢", "僥丁?", "僨a", "僫b+", "僮", "僱丁?", "僴a", "僷b+", "僺", "僽丁?", "儀a", "儃b+", "儆", "儉丁?", "儌a", "儏b+", "儒", "儕丁?", "儘a", "儛b+", "儞", "儡丁?", "儤a", "儧b+", "優", "儭丁?", "儰a", "儳b+", "儶", "儹丁?", "儼a", "儿b+", "兂", "充丁?", "先a", "克b+", "兎", "兑丁?", "兔a", "兗b+", "党", "兝丁?", "兠a", "兣b+", "兦", "兩丁?", "公a", "兯b+", "兲", "兵丁?", "典a", "养b+", "兾", "冁丁?", "冄a", "冇b+", "冊", "再丁?", "冐a", "冓b+", "冖", "写丁?", "农a", "冟b+", "冢", "冥丁?", "冨a", "冫b+", "冮", "冱丁?", "冴a", "冷b+", "冺", "冽丁?"];
pub fn index(k: Many) -> Option<(usize, String)> {
  match k {
    Many::V0(s) => Some((0, s)),
    Many::V1(s) => Some((1, s)),
    Many::V2(s) => Some((2, s)),
    Many::V3(s) => Some((3, s)),
    Many::V4(s) => Some((4, s)),
    Many::V5(s) => Some((5, s)),
    Many::V6(s) => Some((6, s)),
    Many::V7(s) => Some((7, s)),
    Many::V8(s) => Some((8, s)),
    Many::V9(s) => Some((9, s)),
    Many::V10(s) => Some((10, s)),
    Many::V11(s) => Some((11, s)),
    Many::V12(s) => Some((12, s)),
    Many::V13(s) => Some((13, s)),
    Many::V14(s) => Some((14, s)),
    Many::V15(s) => Some((15, s)),
    Many::V16(s) => Some((16, s)),
    Many::V17(s) => Some((17, s)),
    Many::V18(s) => Some((18, s)),
    Many::V19(s) => Some((19, s)),
    Many::V20(s) => Some((20, s)),
    Many::V21(s) => Some((21, s)),
    Many::V22(s) => Some((22, s)),
    Many::V23(s) => Some((23, s)),
    Many::V24(s) => Some((24, s)),
    Many::V25(s) => Some((25, s)),
    Many::V26(s) => Some((26, s)),
    Many::V27(s) => Some((27, s)),
    Many::V28(s) => Some((28, s)),
    Many::V29(s) => Some((29, s)),
    Many::V30(s) => Some((30, s)),
    Many::V31(s) => Some((31, s)),
    Many::V32(s) => Some((32, s)),
    Many::V33(s) => Some((33, s)),
    Many::V34(s) => Some((34, s)),
    Many::V35(s) => Some((35, s)),
    Many::V36(s) => Some((36, s)),
    Many::V37(s) => Some((37, s)),
    Many::V38(s) => Some((38, s)),
    Many::V39(s) => Some((39, s)),
    Many::V40(s) => Some((40, s)),
    Many::V41(s) => Some((41, s)),
    Many::V42(s) => Some((42, s)),
    Many::V43(s) => Some((43, s)),
    Many::V44(s) => Some((44, s)),
    Many::V45(s) => Some((45, s)),
    Many::V46(s) => Some((46, s)),
    Many::V47(s) => Some((47, s)),
    Many::V48(s) => Some((48, s)),
    Many::V49(s) => Some((49, s)),
    Many::V50(s) => Some((50, s)),
    Many::V51(s) => Some((51, s)),
    Many::V52(s) => Some((52, s)),
    Many::V53(s) => Some((53, s)),
    Many::V54(s) => Some((54, s)),
    Many::V55(s) => Some((55, s)),
    Many::V56(s) => Some((56, s)),
    Many::V57(s) => Some((57, s)),
    Many::V58(s) => Some((58, s)),
    Many::V59(s) => Some((59, s)),
    Many::V60(s) => Some((60, s)),
    Many::V61(s) => Some((61, s)),
    Many::V62(s) => Some((62, s)),
    Many::V63(s) => Some((63, s)),
    Many::V64(s) => Some((64, s)),
    Many::V65(s) => Some((65, s)),
    Many::V66(s) => Some((66, s)),
    Many::V67(s) => Some((67, s)),
    Many::V68(s) => Some((68, s)),
    Many::V69(s) => Some((69, s)),
    Many::V70(s) => Some((70, s)),
    Many::V71(s) => Some((71, s)),
    Many::V72(s) => Some((72, s)),
    Many::V73(s) => Some((73, s)),
    Many::V74(s) => Some((74, s)),
    Many::V75(s) => Some((75, s)),
    Many::V76(s) => Some((76, s)),
    Many::V77(s) => Some((77, s)),
    Many::V78(s) => Some((78, s)),
    Many::V79(s) => Some((79, s)),
    Many::V80(s) => Some((80, s)),
    Many::V81(s) => Some((81, s)),
    Many::V82(s) => Some((82, s)),
    Many::V83(s) => Some((83, s)),
    Many::V84(s) => Some((84, s)),
    Many::V85(s) => Some((85, s)),
    Many::V86(s) => Some((86, s)),
    Many::V87(s) => Some((87, s)),
    Many::V88(s) => Some((88, s)),
    Many::V89(s) => Some((89, s)),
    Many::V90(s) => Some((90, s)),
    Many::V91(s) => Some((91, s)),
    Many::V92(s) => Some((92, s)),
    Many::V93(s) => Some((93, s)),
    Many::V94(s) => Some((94, s)),
    Many::V95(s) => Some((95, s)),
    Many::V96(s) => Some((96, s)),
    Many::V97(s) => Some((97, s)),
    Many::V98(s) => Some((98, s)),
    Many::V99(s) => Some((99, s)),
    Many::V100(s) => Some((100, s)),
    Many::V101(s) => Some((101, s)),
    Many::V102(s) => Some((102, s)),
    Many::V103(s) => Some((103, s)),
    Many::V104(s) => Some((104, s)),
    Many::V105(s) => Some((105, s)),
    Many::V106(s) => Some((106, s)),
    Many::V107(s) => Some((107, s)),
    Many::V108(s) => Some((108, s)),
    Many::V109(s) => Some((109, s)),
    Many::V110(s) => Some((110, s)),
    Many::V111(s) => Some((111, s)),
    Many::V112(s) => Some((112, s)),
    Many::V113(s) => Some((113, s)),
    Many::V114(s) => Some((114, s)),
    Many::V115(s) => Some((115, s)),
    Many::V116(s) => Some((116, s)),
    Many::V117(s) => Some((117, s)),
    Many::V118(s) => Some((118, s)),
    Many::V119(s) => Some((119, s)),
    Many::V120(s) => Some((120, s)),
    Many::V121(s) => Some((121, s)),
    Many::V122(s) => Some((122, s)),
    Many::V123(s) => Some((123, s)),
    Many::V124(s) => Some((124, s)),
    Many::V125(s) => Some((125, s)),
    Many::V126(s) => Some((126, s)),
    Many::V127(s) => Some((127, s)),
    Many::V128(s) => Some((128, s)),
    Many::V129(s) => Some((129, s)),
    Many::V130(s) => Some((130, s)),
    Many::V131(s) => Some((131, s)),
    Many::V132(s) => Some((132, s)),
    Many::V133(s) => Some((133, s)),
    Many::V134(s) => Some((134, s)),
    Many::V135(s) => Some((135, s)),
    Many::V136(s) => Some((136, s)),
    Many::V137(s) => Some((137, s)),
    Many::V138(s) => Some((138, s)),
    Many::V139(s) => Some((139, s)),
    Many::V140(s) => Some((140, s)),
    Many::V141(s) => Some((141, s)),
    Many::V142(s) => Some((142, s)),
    Many::V143(s) => Some((143, s)),
    Many::V144(s) => Some((144, s)),
    Many::V145(s) => Some((145, s)),
    Many::V146(s) => Some((146, s)),
    Many::V147(s) => Some((147, s)),
    Many::V148(s) => Some((148, s)),
    Many::V149(s) => Some((149, s)),
    Many::V150(s) => Some((150, s)),
    Many::V151(s) => Some((151, s)),
    Many::V152(s) => Some((152, s)),
    Many::V153(s) => Some((153, s)),
    Many::V154(s) => Some((154, s)),
    Many::V155(s) => Some((155, s)),
    Many::V156(s) => Some((156, s)),
    Many::V157(s) => Some((157, s)),
    Many::V158(s) => Some((158, s)),
    Many::V159(s) => Some((159, s)),
    Many::V160(s) => Some((160, s)),
    Many::V161(s) => Some((161, s)),
    Many::V162(s) => Some((162, s)),
    Many::V163(s) => Some((163, s)),
    Many::V164(s) => Some((164, s)),
    Many::V165(s) => Some((165, s)),
    Many::V166(s) => Some((166, s)),
    Many::V167(s) => Some((167, s)),
    Many::V168(s) => Some((168, s)),
    Many::V169(s) => Some((169, s)),
    Many::V170(s) => Some((170, s)),
    Many::V171(s) => Some((171, s)),
    Many::V172(s) => Some((172, s)),
    Many::V173(s) => Some((173, s)),
    Many::V174(s) => Some((174, s)),
    Many::V175(s) => Some((175, s)),
    Many::V176(s) => Some((176, s)),
    Many::V177(s) => Some((177, s)),
    Many::V178(s) => Some((178, s)),
    Many::V179(s) => Some((179, s)),
    Many::V180(s) => Some((180, s)),
    Many::V181(s) => Some((181, s)),
    Many::V182(s) => Some((182, s)),
    Many::V183(s) => Some((183, s)),
    Many::V184(s) => Some((184, s)),
    Many::V185(s) => Some((185, s)),
    Many::V186(s) => Some((186, s)),
    Many::V187(s) => Some((187, s)),
    Many::V188(s) => Some((188, s)),
    Many::V189(s) => Some((189, s)),
    Many::V190(s) => Some((190, s)),
    Many::V191(s) => Some((191, s)),
    Many::V192(s) => Some((192, s)),
    Many::V193(s) => Some((193, s)),
    Many::V194(s) => Some((194, s)),
    Many::V195(s) => Some((195, s)),
    Many::V196(s) => Some((196, s)),
    Many::V197(s) => Some((197, s)),
    Many::V198(s) => Some((198, s)),
    Many::V199(s) => Some((199, s)),
    Many::V200(s) => Some((200, s)),
    Many::V201(s) => Some((201, s)),
    Many::V202(s) => Some((202, s)),
    Many::V203(s) => Some((203, s)),
    Many::V204(s) => Some((204, s)),
    Many::V205(s) => Some((205, s)),
    Many::V206(s) => Some((206, s)),
    Many::V207(s) => Some((207, s)),
    Many::V208(s) => Some((208, s)),
    Many::V209(s) => Some((209, s)),
    Many::V210(s) => Some((210, s)),
    Many::V211(s) => Some((211, s)),
    Many::V212(s) => Some((212, s)),
    Many::V213(s) => Some((213, s)),
    Many::V214(s) => Some((214, s)),
    Many::V215(s) => Some((215, s)),
    Many::V216(s) => Some((216, s)),
    Many::V217(s) => Some((217, s)),
    Many::V218(s) => Some((218, s)),
    Many::V219(s) => Some((219, s)),
    Many::V220(s) => Some((220, s)),
    Many::V221(s) => Some((221, s)),
    Many::V222(s) => Some((222, s)),
    Many::V223(s) => Some((223, s)),
    Many::V224(s) => Some((224, s)),
    Many::V225(s) => Some((225, s)),
    Many::V226(s) => Some((226, s)),
    Many::V227(s) => Some((227, s)),
    Many::V228(s) => Some((228, s)),
    Many::V229(s) => Some((229, s)),
    Many::V230(s) => Some((230, s)),
    Many::V231(s) => Some((231, s)),
    Many::V232(s) => Some((232, s)),
    Many::V233(s) => Some((233, s)),
    Many::V234(s) => Some((234, s)),
    Many::V235(s) => Some((235, s)),
    Many::V236(s) => Some((236, s)),
    Many::V237(s) => Some((237, s)),
    Many::V238(s) => Some((238, s)),
    Many::V239(s) => Some((239, s)),
    Many::V240(s) => Some((240, s)),
    Many::V241(s) => Some((241, s)),
    Many::V242(s) => Some((242, s)),
    Many::V243(s) => Some((243, s)),
    Many::V244(s) => Some((244, s)),
    Many::V245(s) => Some((245, s)),
    Many::V246(s) => Some((246, s)),
    Many::V247(s) => Some((247, s)),
    Many::V248(s) => Some((248, s)),
    Many::V249(s) => Some((249, s)),
    Many::V250(s) => Some((250, s)),
    Many::V251(s) => Some((251, s)),
    Many::V252(s) => Some((252, s)),
    Many::V253(s) => Some((253, s)),
    Many::V254(s) => Some((254, s)),
    Many::V255(s) => Some((255, s)),
    Many::V256(s) => Some((256, s)),
    Many::V257(s) => Some((257, s)),
    Many::V258(s) => Some((258, s)),
    Many::V259(s) => Some((259, s)),
    Many::V260(s) => Some((260, s)),
    Many::V261(s) => Some((261, s)),
    Many::V262(s) => Some((262, s)),
    Many::V263(s) => Some((263, s)),
    Many::V264(s) => Some((264, s)),
    Many::V265(s) => Some((265, s)),
    Many::V266(s) => Some((266, s)),
    Many::V267(s) => Some((267, s)),
    Many::V268(s) => Some((268, s)),
    Many::V269(s) => Some((269, s)),
    Many::V270(s) => Some((270, s)),
    Many::V271(s) => Some((271, s)),
    Many::V272(s) => Some((272, s)),
    Many::V273(s) => Some((273, s)),
    Many::V274(s) => Some((274, s)),
    Many::V275(s) => Some((275, s)),
    Many::V276(s) => Some((276, s)),
    Many::V277(s) => Some((277, s)),
    Many::V278(s) => Some((278, s)),
    Many::V279(s) => Some((279, s)),
    Many::V280(s) => Some((280, s)),
    Many::V281(s) => Some((281, s)),
    Many::V282(s) => Some((282, s)),
    Many::V283(s) => Some((283, s)),
    Many::V284(s) => Some((284, s)),
    Many::V285(s) => Some((285, s)),
    Many::V286(s) => Some((286, s)),
    Many::V287(s) => Some((287, s)),
    Many::V288(s) => Some((288, s)),
    Many::V289(s) => Some((289, s)),
    Many::V290(s) => Some((290, s)),
    Many::V291(s) => Some((291, s)),
    Many::V292(s) => Some((292, s)),
    Many::V293(s) => Some((293, s)),
    Many::V294(s) => Some((294, s)),
    Many::V295(s) => Some((295, s)),
    Many::V296(s) => Some((296, s)),
    Many::V297(s) => Some((297, s)),
    Many::V298(s) => Some((298, s)),
    Many::V299(s) => Some((299, s)),
    Many::V300(s) => Some((300, s)),
    Many::V301(s) => Some((301, s)),
    Many::V302(s) => Some((302, s)),
    Many::V303(s) => Some((303, s)),
    Many::V304(s) => Some((304, s)),
    Many::V305(s) => Some((305, s)),
    Many::V306(s) => Some((306, s)),
    Many::V307(s) => Some((307, s)),
    Many::V308(s) => Some((308, s)),
    Many::V309(s) => Some((309, s)),
    Many::V310(s) => Some((310, s)),
    Many::V311(s) => Some((311, s)),
    Many::V312(s) => Some((312, s)),
    Many::V313(s) => Some((313, s)),
    Many::V314(s) => Some((314, s)),
    Many::V315(s) => Some((315, s)),
    Many::V316(s) => Some((316, s)),
    Many::V317(s) => Some((317, s)),
    Many::V318(s) => Some((318, s)),
    Many::V319(s) => Some((319, s)),
    Many::Ws | Many::End => None,
  }
}
