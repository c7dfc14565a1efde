// Made by tools/gen_c31.mjs: programs as parsed by swc 1 (spans left out).
export default "{\"js\":[{\"src\":\"H`q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}],\"interpreter\":null},\"pieces\":[\"\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`;\"]},{\"src\":\"const a = H`q${x}q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"x\",\"optional\":false}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":0},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"definite\":false}]}],\"interpreter\":null},\"pieces\":[\"const a = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"${x}\",{\"n\":1},\"`;\"]},{\"src\":\"H`q${x}q${y}q${G`q${z}q${z}q`}q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"x\",\"optional\":false},{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"y\",\"optional\":false},{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"G\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"z\",\"optional\":false},{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"z\",\"optional\":false}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":3},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":4},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":5}]}}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":0},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":1},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":2},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":6}]}}}],\"interpreter\":null},\"pieces\":[\"\",{\"name\":\"H\"},\"`\",{\"n\":0},\"${x}\",{\"n\":1},\"${y}\",{\"n\":2},\"${\",{\"name\":\"G\"},\"`\",{\"n\":3},\"${z}\",{\"n\":4},\"${z}\",{\"n\":5},\"`}\",{\"n\":6},\"`;\"]},{\"src\":\"let [a = H`q`, { b = H`q`, [H`q`]: c }] = d;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"let\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"ArrayPattern\",\"span\":0,\"elements\":[{\"type\":\"AssignmentPattern\",\"span\":0,\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}},{\"type\":\"ObjectPattern\",\"span\":0,\"properties\":[{\"type\":\"AssignmentPatternProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"b\",\"optional\":false,\"typeAnnotation\":null},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}},{\"type\":\"KeyValuePatternProperty\",\"key\":{\"type\":\"Computed\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}},\"value\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"c\",\"optional\":false,\"typeAnnotation\":null}}],\"optional\":false,\"typeAnnotation\":null}],\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"d\",\"optional\":false},\"definite\":false}]}],\"interpreter\":null},\"pieces\":[\"let [a = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`, { b = \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`, [\",{\"name\":\"H\"},\"`\",{\"n\":2},\"`]: c }] = d;\"]},{\"src\":\"export default H`q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExportDefaultExpression\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}],\"interpreter\":null},\"pieces\":[\"export default \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`;\"]},{\"src\":\"export const a = () => H`q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExportDeclaration\",\"span\":0,\"declaration\":{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"ArrowFunctionExpression\",\"span\":0,\"ctxt\":3,\"params\":[],\"body\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"async\":false,\"generator\":false,\"typeParameters\":null,\"returnType\":null},\"definite\":false}]}}],\"interpreter\":null},\"pieces\":[\"export const a = () => \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`;\"]},{\"src\":\"export default function () { return H`q${H`q`}q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExportDefaultDeclaration\",\"span\":0,\"decl\":{\"type\":\"FunctionExpression\",\"identifier\":null,\"params\":[],\"decorators\":[],\"span\":0,\"ctxt\":3,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ReturnStatement\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":0},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}]},\"generator\":false,\"async\":false,\"typeParameters\":null,\"returnType\":null}}],\"interpreter\":null},\"pieces\":[\"export default function () { return \",{\"name\":\"H\"},\"`\",{\"n\":0},\"${\",{\"name\":\"H\"},\"`\",{\"n\":1},\"`}\",{\"n\":2},\"`; }\"]},{\"src\":\"function f(a = H`q`, { b } = H`q`, ...c) { if (H`q`) return H`q`; else throw H`q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"FunctionDeclaration\",\"identifier\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"f\",\"optional\":false},\"declare\":false,\"params\":[{\"type\":\"Parameter\",\"span\":0,\"decorators\":[],\"pat\":{\"type\":\"AssignmentPattern\",\"span\":0,\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}},{\"type\":\"Parameter\",\"span\":0,\"decorators\":[],\"pat\":{\"type\":\"AssignmentPattern\",\"span\":0,\"left\":{\"type\":\"ObjectPattern\",\"span\":0,\"properties\":[{\"type\":\"AssignmentPatternProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"b\",\"optional\":false,\"typeAnnotation\":null},\"value\":null}],\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}},{\"type\":\"Parameter\",\"span\":0,\"decorators\":[],\"pat\":{\"type\":\"RestElement\",\"span\":0,\"rest\":{\"start\":36,\"end\":39},\"argument\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"c\",\"optional\":false,\"typeAnnotation\":null},\"typeAnnotation\":null}}],\"decorators\":[],\"span\":0,\"ctxt\":3,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"IfStatement\",\"span\":0,\"test\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}},\"consequent\":{\"type\":\"ReturnStatement\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}},\"alternate\":{\"type\":\"ThrowStatement\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}}}}]},\"generator\":false,\"async\":false,\"typeParameters\":null,\"returnType\":null}],\"interpreter\":null},\"pieces\":[\"function f(a = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`, { b } = \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`, ...c) { if (\",{\"name\":\"H\"},\"`\",{\"n\":2},\"`) return \",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; else throw \",{\"name\":\"H\"},\"`\",{\"n\":4},\"`; }\"]},{\"src\":\"class A extends H`q` { a = H`q`; static b = H`q`; #c = H`q`; static { H`q`; } [H`q`] = 1; get d() { return H`q`; } constructor(x = H`q`) { super(H`q`); } async *e() { yield H`q`; await H`q`; } }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ClassDeclaration\",\"identifier\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"A\",\"optional\":false},\"declare\":false,\"span\":0,\"ctxt\":0,\"decorators\":[],\"body\":[{\"type\":\"ClassProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"a\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"typeAnnotation\":null,\"isStatic\":false,\"decorators\":[],\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false,\"readonly\":false,\"declare\":false,\"definite\":false},{\"type\":\"ClassProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"b\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}},\"typeAnnotation\":null,\"isStatic\":true,\"decorators\":[],\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false,\"readonly\":false,\"declare\":false,\"definite\":false},{\"type\":\"PrivateProperty\",\"span\":0,\"ctxt\":0,\"key\":{\"type\":\"PrivateName\",\"span\":0,\"value\":\"c\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}},\"typeAnnotation\":null,\"isStatic\":false,\"decorators\":[],\"accessibility\":null,\"isOptional\":false,\"isOverride\":false,\"readonly\":false,\"definite\":false},{\"type\":\"StaticBlock\",\"span\":0,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}}}]}},{\"type\":\"ClassProperty\",\"span\":0,\"key\":{\"type\":\"Computed\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":5}]}}},\"value\":{\"type\":\"NumericLiteral\",\"span\":0,\"value\":1,\"raw\":\"1\"},\"typeAnnotation\":null,\"isStatic\":false,\"decorators\":[],\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false,\"readonly\":false,\"declare\":false,\"definite\":false},{\"type\":\"ClassMethod\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"d\"},\"function\":{\"params\":[],\"decorators\":[],\"span\":0,\"ctxt\":4,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":4,\"stmts\":[{\"type\":\"ReturnStatement\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":6}]}}}]},\"generator\":false,\"async\":false,\"typeParameters\":null,\"returnType\":null},\"kind\":\"getter\",\"isStatic\":false,\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false},{\"type\":\"Constructor\",\"span\":0,\"ctxt\":5,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"constructor\"},\"params\":[{\"type\":\"Parameter\",\"span\":0,\"decorators\":[],\"pat\":{\"type\":\"AssignmentPattern\",\"span\":0,\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":5,\"value\":\"x\",\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":7}]}}}}],\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":5,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"CallExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"Super\",\"span\":0},\"arguments\":[{\"spread\":null,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":8}]}}}],\"typeArguments\":null}}]},\"accessibility\":null,\"isOptional\":false},{\"type\":\"ClassMethod\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"e\"},\"function\":{\"params\":[],\"decorators\":[],\"span\":0,\"ctxt\":6,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":6,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"YieldExpression\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":9}]}},\"delegate\":false}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"AwaitExpression\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":10}]}}}}]},\"generator\":true,\"async\":true,\"typeParameters\":null,\"returnType\":null},\"kind\":\"method\",\"isStatic\":false,\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false}],\"superClass\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"isAbstract\":false,\"typeParams\":null,\"superTypeParams\":null,\"implements\":[]}],\"interpreter\":null},\"pieces\":[\"class A extends \",{\"name\":\"H\"},\"`\",{\"n\":0},\"` { a = \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; static b = \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`; #c = \",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; static { \",{\"name\":\"H\"},\"`\",{\"n\":4},\"`; } [\",{\"name\":\"H\"},\"`\",{\"n\":5},\"`] = 1; get d() { return \",{\"name\":\"H\"},\"`\",{\"n\":6},\"`; } constructor(x = \",{\"name\":\"H\"},\"`\",{\"n\":7},\"`) { super(\",{\"name\":\"H\"},\"`\",{\"n\":8},\"`); } async *e() { yield \",{\"name\":\"H\"},\"`\",{\"n\":9},\"`; await \",{\"name\":\"H\"},\"`\",{\"n\":10},\"`; } }\"]},{\"src\":\"for (let i = H`q`; H`q`; i = H`q`) { H`q`; } for (const x of H`q`) H`q`; for (const k in H`q`) H`q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ForStatement\",\"span\":0,\"init\":{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"let\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"i\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"definite\":false}]},\"test\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"update\":{\"type\":\"AssignmentExpression\",\"span\":0,\"operator\":\"=\",\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"i\",\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}},\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":4,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}}]}},{\"type\":\"ForOfStatement\",\"span\":0,\"await\":false,\"left\":{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":5,\"value\":\"x\",\"optional\":false,\"typeAnnotation\":null},\"init\":null,\"definite\":false}]},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}},\"body\":{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":5}]}}}},{\"type\":\"ForInStatement\",\"span\":0,\"left\":{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":6,\"value\":\"k\",\"optional\":false,\"typeAnnotation\":null},\"init\":null,\"definite\":false}]},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":6}]}},\"body\":{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":7}]}}}}],\"interpreter\":null},\"pieces\":[\"for (let i = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`; \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; i = \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`) { \",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; } for (const x of \",{\"name\":\"H\"},\"`\",{\"n\":4},\"`) \",{\"name\":\"H\"},\"`\",{\"n\":5},\"`; for (const k in \",{\"name\":\"H\"},\"`\",{\"n\":6},\"`) \",{\"name\":\"H\"},\"`\",{\"n\":7},\"`;\"]},{\"src\":\"while (H`q`) { do { H`q`; } while (H`q`); }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"WhileStatement\",\"span\":0,\"test\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"DoWhileStatement\",\"span\":0,\"test\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}},\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":4,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}]}}]}}],\"interpreter\":null},\"pieces\":[\"while (\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`) { do { \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; } while (\",{\"name\":\"H\"},\"`\",{\"n\":2},\"`); }\"]},{\"src\":\"switch (H`q`) { case H`q`: H`q`; break; default: H`q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"SwitchStatement\",\"span\":0,\"discriminant\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"cases\":[{\"type\":\"SwitchCase\",\"span\":0,\"test\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"consequent\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}},{\"type\":\"BreakStatement\",\"span\":0,\"label\":null}]},{\"type\":\"SwitchCase\",\"span\":0,\"test\":null,\"consequent\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}}]}]}],\"interpreter\":null},\"pieces\":[\"switch (\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`) { case \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`: \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`; break; default: \",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; }\"]},{\"src\":\"try { H`q`; } catch ({ a = H`q` }) { H`q`; } finally { H`q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"TryStatement\",\"span\":0,\"block\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}]},\"handler\":{\"type\":\"CatchClause\",\"span\":0,\"param\":{\"type\":\"ObjectPattern\",\"span\":0,\"properties\":[{\"type\":\"AssignmentPatternProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":4,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}],\"optional\":false,\"typeAnnotation\":null},\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":4,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}]}},\"finalizer\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":5,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}}]}}],\"interpreter\":null},\"pieces\":[\"try { \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`; } catch ({ a = \",{\"name\":\"H\"},\"`\",{\"n\":1},\"` }) { \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`; } finally { \",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; }\"]},{\"src\":\"l: { H`q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"LabeledStatement\",\"span\":0,\"label\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":0,\"value\":\"l\",\"optional\":false},\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}]}}],\"interpreter\":null},\"pieces\":[\"l: { \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`; }\"]},{\"src\":\"({ a: H`q`, [H`q`]: 1, ...H`q`, m() { return H`q`; }, get g() { return H`q`; } });\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"ParenthesisExpression\",\"span\":0,\"expression\":{\"type\":\"ObjectExpression\",\"span\":0,\"properties\":[{\"type\":\"KeyValueProperty\",\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"a\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}},{\"type\":\"KeyValueProperty\",\"key\":{\"type\":\"Computed\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}},\"value\":{\"type\":\"NumericLiteral\",\"span\":0,\"value\":1,\"raw\":\"1\"}},{\"type\":\"SpreadElement\",\"spread\":{\"start\":24,\"end\":27},\"arguments\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}},{\"type\":\"MethodProperty\",\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"m\"},\"params\":[],\"decorators\":[],\"span\":0,\"ctxt\":3,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ReturnStatement\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}}]},\"generator\":false,\"async\":false,\"typeParameters\":null,\"returnType\":null},{\"type\":\"GetterProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"g\"},\"typeAnnotation\":null,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":4,\"stmts\":[{\"type\":\"ReturnStatement\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}}}]}}]}}}],\"interpreter\":null},\"pieces\":[\"({ a: \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`, [\",{\"name\":\"H\"},\"`\",{\"n\":1},\"`]: 1, ...\",{\"name\":\"H\"},\"`\",{\"n\":2},\"`, m() { return \",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; }, get g() { return \",{\"name\":\"H\"},\"`\",{\"n\":4},\"`; } });\"]},{\"src\":\"[H`q`, ...H`q`, , H`q`];\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"ArrayExpression\",\"span\":0,\"elements\":[{\"spread\":null,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}},{\"spread\":{\"start\":8,\"end\":11},\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}},null,{\"spread\":null,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}]}}],\"interpreter\":null},\"pieces\":[\"[\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`, ...\",{\"name\":\"H\"},\"`\",{\"n\":1},\"`, , \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`];\"]},{\"src\":\"f(H`q`, ...H`q`); new F(H`q`); a?.b(H`q`); a?.[H`q`]; a[H`q`].c;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"CallExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"f\",\"optional\":false},\"arguments\":[{\"spread\":null,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}},{\"spread\":{\"start\":9,\"end\":12},\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}],\"typeArguments\":null}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"NewExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"F\",\"optional\":false},\"arguments\":[{\"spread\":null,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}],\"typeArguments\":null}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"OptionalChainingExpression\",\"span\":0,\"optional\":false,\"base\":{\"type\":\"CallExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"OptionalChainingExpression\",\"span\":0,\"optional\":true,\"base\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"b\"}}},\"arguments\":[{\"spread\":null,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}}],\"typeArguments\":null}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"OptionalChainingExpression\",\"span\":0,\"optional\":true,\"base\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"property\":{\"type\":\"Computed\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}}}}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"property\":{\"type\":\"Computed\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":5}]}}}},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"c\"}}}],\"interpreter\":null},\"pieces\":[\"f(\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`, ...\",{\"name\":\"H\"},\"`\",{\"n\":1},\"`); new F(\",{\"name\":\"H\"},\"`\",{\"n\":2},\"`); a?.b(\",{\"name\":\"H\"},\"`\",{\"n\":3},\"`); a?.[\",{\"name\":\"H\"},\"`\",{\"n\":4},\"`]; a[\",{\"name\":\"H\"},\"`\",{\"n\":5},\"`].c;\"]},{\"src\":\"a = H`q` ? H`q` : H`q`; a ||= H`q`; (H`q`, H`q`); !H`q`; H`q` + H`q`; typeof H`q`; a ?? H`q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"AssignmentExpression\",\"span\":0,\"operator\":\"=\",\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"ConditionalExpression\",\"span\":0,\"test\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"consequent\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"alternate\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"AssignmentExpression\",\"span\":0,\"operator\":\"||=\",\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"ParenthesisExpression\",\"span\":0,\"expression\":{\"type\":\"SequenceExpression\",\"span\":0,\"expressions\":[{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}},{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":5}]}}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"UnaryExpression\",\"span\":0,\"operator\":\"!\",\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":6}]}}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"BinaryExpression\",\"span\":0,\"operator\":\"+\",\"left\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":7}]}},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":8}]}}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"UnaryExpression\",\"span\":0,\"operator\":\"typeof\",\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":9}]}}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"BinaryExpression\",\"span\":0,\"operator\":\"??\",\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":10}]}}}}],\"interpreter\":null},\"pieces\":[\"a = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"` ? \",{\"name\":\"H\"},\"`\",{\"n\":1},\"` : \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`; a ||= \",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; (\",{\"name\":\"H\"},\"`\",{\"n\":4},\"`, \",{\"name\":\"H\"},\"`\",{\"n\":5},\"`); !\",{\"name\":\"H\"},\"`\",{\"n\":6},\"`; \",{\"name\":\"H\"},\"`\",{\"n\":7},\"` + \",{\"name\":\"H\"},\"`\",{\"n\":8},\"`; typeof \",{\"name\":\"H\"},\"`\",{\"n\":9},\"`; a ?? \",{\"name\":\"H\"},\"`\",{\"n\":10},\"`;\"]},{\"src\":\"`q${H`q`}q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":0},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}],\"interpreter\":null},\"pieces\":[\"`\",{\"n\":0},\"${\",{\"name\":\"H\"},\"`\",{\"n\":1},\"`}\",{\"n\":2},\"`;\"]},{\"src\":\"G`q${H`q${G`q`}q`}q`; H`q${G`q${H`q`}q`}q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"G\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"G\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":1},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":0},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"G\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":7}]}}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":6},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":8}]}}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":5},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":9}]}}}],\"interpreter\":null},\"pieces\":[\"\",{\"name\":\"G\"},\"`\",{\"n\":0},\"${\",{\"name\":\"H\"},\"`\",{\"n\":1},\"${\",{\"name\":\"G\"},\"`\",{\"n\":2},\"`}\",{\"n\":3},\"`}\",{\"n\":4},\"`; \",{\"name\":\"H\"},\"`\",{\"n\":5},\"${\",{\"name\":\"G\"},\"`\",{\"n\":6},\"${\",{\"name\":\"H\"},\"`\",{\"n\":7},\"`}\",{\"n\":8},\"`}\",{\"n\":9},\"`;\"]},{\"src\":\"A.H`q`; A.b.H`q`; this.H`q`; f().H`q`; A[\\\"H\\\"]`q`; A[H]`q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"A\",\"optional\":false},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"H\"}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"A\",\"optional\":false},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"b\"}},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"H\"}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"ThisExpression\",\"span\":0},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"H\"}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"CallExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"f\",\"optional\":false},\"arguments\":[],\"typeArguments\":null},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"H\"}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"A\",\"optional\":false},\"property\":{\"type\":\"Computed\",\"span\":0,\"expression\":{\"type\":\"StringLiteral\",\"span\":0,\"value\":\"H\",\"raw\":\"\\\"H\\\"\"}}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"A\",\"optional\":false},\"property\":{\"type\":\"Computed\",\"span\":0,\"expression\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false}}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":5}]}}}],\"interpreter\":null},\"pieces\":[\"A.\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`; A.b.\",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; this.\",{\"name\":\"H\"},\"`\",{\"n\":2},\"`; f().\",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; A[\\\"H\\\"]`\",{\"n\":4},\"`; A[\",{\"name\":\"H\"},\"]`\",{\"n\":5},\"`;\"]},{\"src\":\"H.x`q`; f(H)`q`; H`q``q`; H`q`.length;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"x\"}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"CallExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"f\",\"optional\":false},\"arguments\":[{\"spread\":null,\"expression\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false}}],\"typeArguments\":null},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"length\"}}}],\"interpreter\":null},\"pieces\":[\"\",{\"name\":\"H\"},\".x`\",{\"n\":0},\"`; f(\",{\"name\":\"H\"},\")`\",{\"n\":1},\"`; \",{\"name\":\"H\"},\"`\",{\"n\":2},\"``\",{\"n\":3},\"`; \",{\"name\":\"H\"},\"`\",{\"n\":4},\"`.length;\"]},{\"src\":\"async () => { for await (const x of H`q`) await H`q`; };\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"ArrowFunctionExpression\",\"span\":0,\"ctxt\":3,\"params\":[],\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ForOfStatement\",\"span\":0,\"await\":true,\"left\":{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":4,\"value\":\"x\",\"optional\":false,\"typeAnnotation\":null},\"init\":null,\"definite\":false}]},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"body\":{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"AwaitExpression\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}}}]},\"async\":true,\"generator\":false,\"typeParameters\":null,\"returnType\":null}}],\"interpreter\":null},\"pieces\":[\"async () => { for await (const x of \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`) await \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; };\"]},{\"src\":\"import(\\\"x\\\" + H`q`); export { a };\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"CallExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"Import\",\"span\":0,\"phase\":\"evaluation\"},\"arguments\":[{\"spread\":null,\"expression\":{\"type\":\"BinaryExpression\",\"span\":0,\"operator\":\"+\",\"left\":{\"type\":\"StringLiteral\",\"span\":0,\"value\":\"x\",\"raw\":\"\\\"x\\\"\"},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}}],\"typeArguments\":null}},{\"type\":\"ExportNamedDeclaration\",\"span\":0,\"specifiers\":[{\"type\":\"ExportSpecifier\",\"span\":0,\"orig\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"exported\":null,\"isTypeOnly\":false}],\"source\":null,\"typeOnly\":false,\"with\":null}],\"interpreter\":null},\"pieces\":[\"import(\\\"x\\\" + \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`); export { a };\"]},{\"src\":\"const f = async (a = H`q`) => { return { H: H`q` }; };\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"f\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"ArrowFunctionExpression\",\"span\":0,\"ctxt\":3,\"params\":[{\"type\":\"AssignmentPattern\",\"span\":0,\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}],\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ReturnStatement\",\"span\":0,\"argument\":{\"type\":\"ObjectExpression\",\"span\":0,\"properties\":[{\"type\":\"KeyValueProperty\",\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"H\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}]}}]},\"async\":true,\"generator\":false,\"typeParameters\":null,\"returnType\":null},\"definite\":false}]}],\"interpreter\":null},\"pieces\":[\"const f = async (a = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`) => { return { \",{\"name\":\"H\"},\": \",{\"name\":\"H\"},\"`\",{\"n\":1},\"` }; };\"]},{\"src\":\"class B { x; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ClassDeclaration\",\"identifier\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"B\",\"optional\":false},\"declare\":false,\"span\":0,\"ctxt\":0,\"decorators\":[],\"body\":[{\"type\":\"ClassProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"x\"},\"value\":null,\"typeAnnotation\":null,\"isStatic\":false,\"decorators\":[],\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false,\"readonly\":false,\"declare\":false,\"definite\":false}],\"superClass\":null,\"isAbstract\":false,\"typeParams\":null,\"superTypeParams\":null,\"implements\":[]}],\"interpreter\":null},\"pieces\":[\"class B { x; }\"]},{\"src\":\"if (a) H`q`; else if (b) H`q`; else { H`q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"IfStatement\",\"span\":0,\"test\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"consequent\":{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}},\"alternate\":{\"type\":\"IfStatement\",\"span\":0,\"test\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"b\",\"optional\":false},\"consequent\":{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}},\"alternate\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}]}}}],\"interpreter\":null},\"pieces\":[\"if (a) \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`; else if (b) \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; else { \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`; }\"]},{\"src\":\"String.raw`q`; css`q${x}q`; \\\"H`q`\\\"; /H`q`/;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"String\",\"optional\":false},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"raw\"}},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"css\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"x\",\"optional\":false}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":1},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"StringLiteral\",\"span\":0,\"value\":\"H`q`\",\"raw\":\"\\\"H`q`\\\"\"}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"RegExpLiteral\",\"span\":0,\"pattern\":\"H`q`\",\"flags\":\"\"}}],\"interpreter\":null},\"pieces\":[\"String.raw`\",{\"n\":0},\"`; css`\",{\"n\":1},\"${x}\",{\"n\":2},\"`; \\\"H`q`\\\"; /H`q`/;\"]},{\"src\":\"var a = function H() { return H`q${() => H`q`}q`; };\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"var\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"FunctionExpression\",\"identifier\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"H\",\"optional\":false},\"params\":[],\"decorators\":[],\"span\":0,\"ctxt\":4,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":4,\"stmts\":[{\"type\":\"ReturnStatement\",\"span\":0,\"argument\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[{\"type\":\"ArrowFunctionExpression\",\"span\":0,\"ctxt\":5,\"params\":[],\"body\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"async\":false,\"generator\":false,\"typeParameters\":null,\"returnType\":null}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":0},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}]},\"generator\":false,\"async\":false,\"typeParameters\":null,\"returnType\":null},\"definite\":false}]}],\"interpreter\":null},\"pieces\":[\"var a = function \",{\"name\":\"H\"},\"() { return \",{\"name\":\"H\"},\"`\",{\"n\":0},\"${() => \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`}\",{\"n\":2},\"`; };\"]},{\"src\":\"x.y = class { static H = H`q`; };\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"AssignmentExpression\",\"span\":0,\"operator\":\"=\",\"left\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"x\",\"optional\":false},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"y\"}},\"right\":{\"type\":\"ClassExpression\",\"identifier\":null,\"span\":0,\"ctxt\":0,\"decorators\":[],\"body\":[{\"type\":\"ClassProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"H\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"typeAnnotation\":null,\"isStatic\":true,\"decorators\":[],\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false,\"readonly\":false,\"declare\":false,\"definite\":false}],\"superClass\":null,\"isAbstract\":false,\"typeParams\":null,\"superTypeParams\":null,\"implements\":[]}}}],\"interpreter\":null},\"pieces\":[\"x.y = class { static \",{\"name\":\"H\"},\" = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`; };\"]},{\"src\":\"delete a[H`q`]; a in H`q`; a instanceof H`q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"UnaryExpression\",\"span\":0,\"operator\":\"delete\",\"argument\":{\"type\":\"MemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"property\":{\"type\":\"Computed\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"BinaryExpression\",\"span\":0,\"operator\":\"in\",\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"BinaryExpression\",\"span\":0,\"operator\":\"instanceof\",\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"a\",\"optional\":false},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}}],\"interpreter\":null},\"pieces\":[\"delete a[\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`]; a in \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; a instanceof \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`;\"]}],\"jsx\":[{\"src\":\"const a = <div a={H`q`} {...H`q`}>{H`q`}te\\n <i/>\\n xt<b.c d=\\\"H`q`\\\"/>{/* c */}<>{H`q`}</></div>;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"JSXElement\",\"span\":0,\"opening\":{\"type\":\"JSXOpeningElement\",\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"div\",\"optional\":false},\"span\":0,\"attributes\":[{\"type\":\"JSXAttribute\",\"span\":0,\"name\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"a\"},\"value\":{\"type\":\"JSXExpressionContainer\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}},{\"type\":\"SpreadElement\",\"spread\":{\"start\":26,\"end\":29},\"arguments\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}],\"selfClosing\":false,\"typeArguments\":null},\"children\":[{\"type\":\"JSXExpressionContainer\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}},{\"type\":\"JSXText\",\"span\":0,\"value\":\"te\\n \",\"raw\":\"te\\n \"},{\"type\":\"JSXElement\",\"span\":0,\"opening\":{\"type\":\"JSXOpeningElement\",\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"i\",\"optional\":false},\"span\":0,\"attributes\":[],\"selfClosing\":true,\"typeArguments\":null},\"children\":[],\"closing\":null},{\"type\":\"JSXText\",\"span\":0,\"value\":\"\\n xt\",\"raw\":\"\\n xt\"},{\"type\":\"JSXElement\",\"span\":0,\"opening\":{\"type\":\"JSXOpeningElement\",\"name\":{\"type\":\"JSXMemberExpression\",\"span\":0,\"object\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"b\",\"optional\":false},\"property\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"c\"}},\"span\":0,\"attributes\":[{\"type\":\"JSXAttribute\",\"span\":0,\"name\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"d\"},\"value\":{\"type\":\"StringLiteral\",\"span\":0,\"value\":\"H`q`\",\"raw\":\"\\\"H`q`\\\"\"}}],\"selfClosing\":true,\"typeArguments\":null},\"children\":[],\"closing\":null},{\"type\":\"JSXExpressionContainer\",\"span\":0,\"expression\":{\"type\":\"JSXEmptyExpression\",\"span\":0}},{\"type\":\"JSXFragment\",\"span\":0,\"opening\":{\"type\":\"JSXOpeningFragment\",\"span\":0},\"children\":[{\"type\":\"JSXExpressionContainer\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}}}],\"closing\":{\"type\":\"JSXClosingFragment\",\"span\":0}}],\"closing\":{\"type\":\"JSXClosingElement\",\"span\":0,\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"div\",\"optional\":false}}},\"definite\":false}]}],\"interpreter\":null},\"pieces\":[\"const a = <div a={\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`} {...\",{\"name\":\"H\"},\"`\",{\"n\":1},\"`}>{\",{\"name\":\"H\"},\"`\",{\"n\":2},\"`}te\\n <i/>\\n xt<b.c d=\\\"H`q`\\\"/>{/* c */}<>{\",{\"name\":\"H\"},\"`\",{\"n\":3},\"`}</></div>;\"]}],\"ts\":[{\"src\":\"const a = H<string>`q`; const b = H`q` as string; const c = H`q`!; const d = <any>H`q`; const e = H`q` satisfies T;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":{\"type\":\"TsTypeParameterInstantiation\",\"span\":0,\"params\":[{\"type\":\"TsKeywordType\",\"span\":0,\"kind\":\"string\"}]},\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"definite\":false}]},{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"b\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TsAsExpression\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"typeAnnotation\":{\"type\":\"TsKeywordType\",\"span\":0,\"kind\":\"string\"}},\"definite\":false}]},{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"c\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TsNonNullExpression\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}},\"definite\":false}]},{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"d\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TsTypeAssertion\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":3}]}},\"typeAnnotation\":{\"type\":\"TsKeywordType\",\"span\":0,\"kind\":\"any\"}},\"definite\":false}]},{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"e\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TsSatisfiesExpression\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":4}]}},\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"T\",\"optional\":false},\"typeParams\":null}},\"definite\":false}]}],\"interpreter\":null},\"pieces\":[\"const a = \",{\"name\":\"H\"},\"<string>`\",{\"n\":0},\"`; const b = \",{\"name\":\"H\"},\"`\",{\"n\":1},\"` as string; const c = \",{\"name\":\"H\"},\"`\",{\"n\":2},\"`!; const d = <any>\",{\"name\":\"H\"},\"`\",{\"n\":3},\"`; const e = \",{\"name\":\"H\"},\"`\",{\"n\":4},\"` satisfies T;\"]},{\"src\":\"enum E { A = f(H`q`), B }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"TsEnumDeclaration\",\"span\":0,\"declare\":false,\"isConst\":false,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"E\",\"optional\":false},\"members\":[{\"type\":\"TsEnumMember\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":0,\"value\":\"A\",\"optional\":false},\"init\":{\"type\":\"CallExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"f\",\"optional\":false},\"arguments\":[{\"spread\":null,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}],\"typeArguments\":null}},{\"type\":\"TsEnumMember\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":0,\"value\":\"B\",\"optional\":false},\"init\":null}]}],\"interpreter\":null},\"pieces\":[\"enum E { A = f(\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`), B }\"]},{\"src\":\"namespace N { export const a = H`q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"TsModuleDeclaration\",\"span\":0,\"declare\":false,\"global\":false,\"namespace\":true,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"N\",\"optional\":false},\"body\":{\"type\":\"TsModuleBlock\",\"span\":0,\"body\":[{\"type\":\"ExportDeclaration\",\"span\":0,\"declaration\":{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"definite\":false}]}}]}}],\"interpreter\":null},\"pieces\":[\"namespace N { export const a = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`; }\"]},{\"src\":\"class A { constructor(private a = H`q`, public readonly b: T) {} declare c: T; d?: T = H`q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ClassDeclaration\",\"identifier\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"A\",\"optional\":false},\"declare\":false,\"span\":0,\"ctxt\":0,\"decorators\":[],\"body\":[{\"type\":\"Constructor\",\"span\":0,\"ctxt\":3,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"constructor\"},\"params\":[{\"type\":\"TsParameterProperty\",\"span\":0,\"decorators\":[],\"accessibility\":\"private\",\"override\":false,\"readonly\":false,\"param\":{\"type\":\"AssignmentPattern\",\"span\":0,\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"a\",\"optional\":false,\"typeAnnotation\":null},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}},{\"type\":\"TsParameterProperty\",\"span\":0,\"decorators\":[],\"accessibility\":\"public\",\"override\":false,\"readonly\":true,\"param\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"b\",\"optional\":false,\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"T\",\"optional\":false},\"typeParams\":null}}}}],\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[]},\"accessibility\":null,\"isOptional\":false},{\"type\":\"ClassProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"c\"},\"value\":null,\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"T\",\"optional\":false},\"typeParams\":null}},\"isStatic\":false,\"decorators\":[],\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false,\"readonly\":false,\"declare\":true,\"definite\":false},{\"type\":\"ClassProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"d\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"T\",\"optional\":false},\"typeParams\":null}},\"isStatic\":false,\"decorators\":[],\"accessibility\":null,\"isAbstract\":false,\"isOptional\":true,\"isOverride\":false,\"readonly\":false,\"declare\":false,\"definite\":false}],\"superClass\":null,\"isAbstract\":false,\"typeParams\":null,\"superTypeParams\":null,\"implements\":[]}],\"interpreter\":null},\"pieces\":[\"class A { constructor(private a = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`, public readonly b: T) {} declare c: T; d?: T = \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; }\"]},{\"src\":\"type T = `q${string}q`; interface I { H: string }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"TsTypeAliasDeclaration\",\"span\":0,\"declare\":false,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"T\",\"optional\":false},\"typeParams\":null,\"typeAnnotation\":{\"type\":\"TsLiteralType\",\"span\":0,\"literal\":{\"type\":\"TemplateLiteral\",\"span\":0,\"types\":[{\"type\":\"TsKeywordType\",\"span\":0,\"kind\":\"string\"}],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":false,\"cooked\":\"q\",\"raw\":0},{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}},{\"type\":\"TsInterfaceDeclaration\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"I\",\"optional\":false},\"declare\":false,\"typeParams\":null,\"extends\":[],\"body\":{\"type\":\"TsInterfaceBody\",\"span\":0,\"body\":[{\"type\":\"TsPropertySignature\",\"span\":0,\"readonly\":false,\"key\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":0,\"value\":\"H\",\"optional\":false},\"computed\":false,\"optional\":false,\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsKeywordType\",\"span\":0,\"kind\":\"string\"}}}]}}],\"interpreter\":null},\"pieces\":[\"type T = `\",{\"n\":0},\"${string}\",{\"n\":1},\"`; interface I { \",{\"name\":\"H\"},\": string }\"]},{\"src\":\"export = H`q`;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"TsExportAssignment\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}],\"interpreter\":null},\"pieces\":[\"export = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`;\"]},{\"src\":\"abstract class A<T> extends X implements I { protected a: T = H`q`; override b(): void { H`q`; } }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"ClassDeclaration\",\"identifier\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"A\",\"optional\":false},\"declare\":false,\"span\":0,\"ctxt\":0,\"decorators\":[],\"body\":[{\"type\":\"ClassProperty\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"a\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"T\",\"optional\":false},\"typeParams\":null}},\"isStatic\":false,\"decorators\":[],\"accessibility\":\"protected\",\"isAbstract\":false,\"isOptional\":false,\"isOverride\":false,\"readonly\":false,\"declare\":false,\"definite\":false},{\"type\":\"ClassMethod\",\"span\":0,\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"b\"},\"function\":{\"params\":[],\"decorators\":[],\"span\":0,\"ctxt\":4,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":4,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}]},\"generator\":false,\"async\":false,\"typeParameters\":null,\"returnType\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsKeywordType\",\"span\":0,\"kind\":\"void\"}}},\"kind\":\"method\",\"isStatic\":false,\"accessibility\":null,\"isAbstract\":false,\"isOptional\":false,\"isOverride\":true}],\"superClass\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"X\",\"optional\":false},\"isAbstract\":true,\"typeParams\":{\"type\":\"TsTypeParameterDeclaration\",\"span\":0,\"parameters\":[{\"type\":\"TsTypeParameter\",\"span\":0,\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"T\",\"optional\":false},\"in\":false,\"out\":false,\"const\":false,\"constraint\":null,\"default\":null}]},\"superTypeParams\":null,\"implements\":[{\"type\":\"TsExpressionWithTypeArguments\",\"span\":0,\"expression\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"I\",\"optional\":false},\"typeArguments\":null}]}],\"interpreter\":null},\"pieces\":[\"abstract class A<T> extends X implements I { protected a: T = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`; override b(): void { \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; } }\"]},{\"src\":\"function f(this: T, a?: T, b: T = H`q`): asserts a { H`q`; }\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"FunctionDeclaration\",\"identifier\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"f\",\"optional\":false},\"declare\":false,\"params\":[{\"type\":\"Parameter\",\"span\":0,\"decorators\":[],\"pat\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"this\",\"optional\":false,\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"T\",\"optional\":false},\"typeParams\":null}}}},{\"type\":\"Parameter\",\"span\":0,\"decorators\":[],\"pat\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"a\",\"optional\":true,\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"T\",\"optional\":false},\"typeParams\":null}}}},{\"type\":\"Parameter\",\"span\":0,\"decorators\":[],\"pat\":{\"type\":\"AssignmentPattern\",\"span\":0,\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"b\",\"optional\":false,\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"T\",\"optional\":false},\"typeParams\":null}}},\"right\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}}],\"decorators\":[],\"span\":0,\"ctxt\":3,\"body\":{\"type\":\"BlockStatement\",\"span\":0,\"ctxt\":3,\"stmts\":[{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}}]},\"generator\":false,\"async\":false,\"typeParameters\":null,\"returnType\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypePredicate\",\"span\":0,\"asserts\":true,\"paramName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"a\",\"optional\":false},\"typeAnnotation\":null}}}],\"interpreter\":null},\"pieces\":[\"function f(this: T, a?: T, b: T = \",{\"name\":\"H\"},\"`\",{\"n\":0},\"`): asserts a { \",{\"name\":\"H\"},\"`\",{\"n\":1},\"`; }\"]},{\"src\":\"const x = { H: H`q` } as const; let y = (H`q`); declare const z: T;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"x\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"TsConstAssertion\",\"span\":0,\"expression\":{\"type\":\"ObjectExpression\",\"span\":0,\"properties\":[{\"type\":\"KeyValueProperty\",\"key\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"H\"},\"value\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}]}},\"definite\":false}]},{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"let\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"y\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"ParenthesisExpression\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}}},\"definite\":false}]},{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":true,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"z\",\"optional\":false,\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"T\",\"optional\":false},\"typeParams\":null}}},\"init\":null,\"definite\":false}]}],\"interpreter\":null},\"pieces\":[\"const x = { \",{\"name\":\"H\"},\": \",{\"name\":\"H\"},\"`\",{\"n\":0},\"` } as const; let y = (\",{\"name\":\"H\"},\"`\",{\"n\":1},\"`); declare const z: T;\"]},{\"src\":\"import x = require(\\\"x\\\"); export import y = N.y; x(H`q`);\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"TsImportEqualsDeclaration\",\"span\":0,\"isExport\":false,\"isTypeOnly\":false,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"x\",\"optional\":false},\"moduleRef\":{\"type\":\"TsExternalModuleReference\",\"span\":0,\"expression\":{\"type\":\"StringLiteral\",\"span\":0,\"value\":\"x\",\"raw\":\"\\\"x\\\"\"}}},{\"type\":\"TsImportEqualsDeclaration\",\"span\":0,\"isExport\":true,\"isTypeOnly\":false,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"y\",\"optional\":false},\"moduleRef\":{\"type\":\"TsQualifiedName\",\"span\":0,\"left\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"N\",\"optional\":false},\"right\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"y\"}}},{\"type\":\"ExpressionStatement\",\"span\":0,\"expression\":{\"type\":\"CallExpression\",\"span\":0,\"ctxt\":0,\"callee\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"x\",\"optional\":false},\"arguments\":[{\"spread\":null,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}}}],\"typeArguments\":null}}],\"interpreter\":null},\"pieces\":[\"import x = require(\\\"x\\\"); export import y = N.y; x(\",{\"name\":\"H\"},\"`\",{\"n\":0},\"`);\"]}],\"tsx\":[{\"src\":\"const A = <T,>(p: T) => <C<T> a={H`q` as T}>{p ? H`q` : <i>{H`q`}</i>}</C>;\",\"ast\":{\"type\":\"Module\",\"span\":0,\"body\":[{\"type\":\"VariableDeclaration\",\"span\":0,\"ctxt\":0,\"kind\":\"const\",\"declare\":false,\"declarations\":[{\"type\":\"VariableDeclarator\",\"span\":0,\"id\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":2,\"value\":\"A\",\"optional\":false,\"typeAnnotation\":null},\"init\":{\"type\":\"ArrowFunctionExpression\",\"span\":0,\"ctxt\":3,\"params\":[{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"p\",\"optional\":false,\"typeAnnotation\":{\"type\":\"TsTypeAnnotation\",\"span\":0,\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"T\",\"optional\":false},\"typeParams\":null}}}],\"body\":{\"type\":\"JSXElement\",\"span\":0,\"opening\":{\"type\":\"JSXOpeningElement\",\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"C\",\"optional\":false},\"span\":0,\"attributes\":[{\"type\":\"JSXAttribute\",\"span\":0,\"name\":{\"type\":\"Identifier\",\"span\":0,\"value\":\"a\"},\"value\":{\"type\":\"JSXExpressionContainer\",\"span\":0,\"expression\":{\"type\":\"TsAsExpression\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":0}]}},\"typeAnnotation\":{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"T\",\"optional\":false},\"typeParams\":null}}}}],\"selfClosing\":false,\"typeArguments\":{\"type\":\"TsTypeParameterInstantiation\",\"span\":0,\"params\":[{\"type\":\"TsTypeReference\",\"span\":0,\"typeName\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"T\",\"optional\":false},\"typeParams\":null}]}},\"children\":[{\"type\":\"JSXExpressionContainer\",\"span\":0,\"expression\":{\"type\":\"ConditionalExpression\",\"span\":0,\"test\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"p\",\"optional\":false},\"consequent\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":1}]}},\"alternate\":{\"type\":\"JSXElement\",\"span\":0,\"opening\":{\"type\":\"JSXOpeningElement\",\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"i\",\"optional\":false},\"span\":0,\"attributes\":[],\"selfClosing\":false,\"typeArguments\":null},\"children\":[{\"type\":\"JSXExpressionContainer\",\"span\":0,\"expression\":{\"type\":\"TaggedTemplateExpression\",\"span\":0,\"ctxt\":0,\"tag\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"H\",\"optional\":false},\"typeParameters\":null,\"template\":{\"type\":\"TemplateLiteral\",\"span\":0,\"expressions\":[],\"quasis\":[{\"type\":\"TemplateElement\",\"span\":0,\"tail\":true,\"cooked\":\"q\",\"raw\":2}]}}}],\"closing\":{\"type\":\"JSXClosingElement\",\"span\":0,\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"i\",\"optional\":false}}}}}],\"closing\":{\"type\":\"JSXClosingElement\",\"span\":0,\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":1,\"value\":\"C\",\"optional\":false}}},\"async\":false,\"generator\":false,\"typeParameters\":{\"type\":\"TsTypeParameterDeclaration\",\"span\":0,\"parameters\":[{\"type\":\"TsTypeParameter\",\"span\":0,\"name\":{\"type\":\"Identifier\",\"span\":0,\"ctxt\":3,\"value\":\"T\",\"optional\":false},\"in\":false,\"out\":false,\"const\":false,\"constraint\":null,\"default\":null}]},\"returnType\":null},\"definite\":false}]}],\"interpreter\":null},\"pieces\":[\"const A = <T,>(p: T) => <C<T> a={\",{\"name\":\"H\"},\"`\",{\"n\":0},\"` as T}>{p ? \",{\"name\":\"H\"},\"`\",{\"n\":1},\"` : <i>{\",{\"name\":\"H\"},\"`\",{\"n\":2},\"`}</i>}</C>;\"]}]}";
