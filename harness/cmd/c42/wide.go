package main

import "github.com/ndau/ndaumath/pkg/signature"

// Enough types for every id.
type (
	t0   struct{ toy }
	t1   struct{ toy }
	t2   struct{ toy }
	t3   struct{ toy }
	t4   struct{ toy }
	t5   struct{ toy }
	t6   struct{ toy }
	t7   struct{ toy }
	t8   struct{ toy }
	t9   struct{ toy }
	t10  struct{ toy }
	t11  struct{ toy }
	t12  struct{ toy }
	t13  struct{ toy }
	t14  struct{ toy }
	t15  struct{ toy }
	t16  struct{ toy }
	t17  struct{ toy }
	t18  struct{ toy }
	t19  struct{ toy }
	t20  struct{ toy }
	t21  struct{ toy }
	t22  struct{ toy }
	t23  struct{ toy }
	t24  struct{ toy }
	t25  struct{ toy }
	t26  struct{ toy }
	t27  struct{ toy }
	t28  struct{ toy }
	t29  struct{ toy }
	t30  struct{ toy }
	t31  struct{ toy }
	t32  struct{ toy }
	t33  struct{ toy }
	t34  struct{ toy }
	t35  struct{ toy }
	t36  struct{ toy }
	t37  struct{ toy }
	t38  struct{ toy }
	t39  struct{ toy }
	t40  struct{ toy }
	t41  struct{ toy }
	t42  struct{ toy }
	t43  struct{ toy }
	t44  struct{ toy }
	t45  struct{ toy }
	t46  struct{ toy }
	t47  struct{ toy }
	t48  struct{ toy }
	t49  struct{ toy }
	t50  struct{ toy }
	t51  struct{ toy }
	t52  struct{ toy }
	t53  struct{ toy }
	t54  struct{ toy }
	t55  struct{ toy }
	t56  struct{ toy }
	t57  struct{ toy }
	t58  struct{ toy }
	t59  struct{ toy }
	t60  struct{ toy }
	t61  struct{ toy }
	t62  struct{ toy }
	t63  struct{ toy }
	t64  struct{ toy }
	t65  struct{ toy }
	t66  struct{ toy }
	t67  struct{ toy }
	t68  struct{ toy }
	t69  struct{ toy }
	t70  struct{ toy }
	t71  struct{ toy }
	t72  struct{ toy }
	t73  struct{ toy }
	t74  struct{ toy }
	t75  struct{ toy }
	t76  struct{ toy }
	t77  struct{ toy }
	t78  struct{ toy }
	t79  struct{ toy }
	t80  struct{ toy }
	t81  struct{ toy }
	t82  struct{ toy }
	t83  struct{ toy }
	t84  struct{ toy }
	t85  struct{ toy }
	t86  struct{ toy }
	t87  struct{ toy }
	t88  struct{ toy }
	t89  struct{ toy }
	t90  struct{ toy }
	t91  struct{ toy }
	t92  struct{ toy }
	t93  struct{ toy }
	t94  struct{ toy }
	t95  struct{ toy }
	t96  struct{ toy }
	t97  struct{ toy }
	t98  struct{ toy }
	t99  struct{ toy }
	t100 struct{ toy }
	t101 struct{ toy }
	t102 struct{ toy }
	t103 struct{ toy }
	t104 struct{ toy }
	t105 struct{ toy }
	t106 struct{ toy }
	t107 struct{ toy }
	t108 struct{ toy }
	t109 struct{ toy }
	t110 struct{ toy }
	t111 struct{ toy }
	t112 struct{ toy }
	t113 struct{ toy }
	t114 struct{ toy }
	t115 struct{ toy }
	t116 struct{ toy }
	t117 struct{ toy }
	t118 struct{ toy }
	t119 struct{ toy }
	t120 struct{ toy }
	t121 struct{ toy }
	t122 struct{ toy }
	t123 struct{ toy }
	t124 struct{ toy }
	t125 struct{ toy }
	t126 struct{ toy }
	t127 struct{ toy }
	t128 struct{ toy }
	t129 struct{ toy }
	t130 struct{ toy }
	t131 struct{ toy }
	t132 struct{ toy }
	t133 struct{ toy }
	t134 struct{ toy }
	t135 struct{ toy }
	t136 struct{ toy }
	t137 struct{ toy }
	t138 struct{ toy }
	t139 struct{ toy }
	t140 struct{ toy }
	t141 struct{ toy }
	t142 struct{ toy }
	t143 struct{ toy }
	t144 struct{ toy }
	t145 struct{ toy }
	t146 struct{ toy }
	t147 struct{ toy }
	t148 struct{ toy }
	t149 struct{ toy }
)

const wideTypes = 150

func wide(i int, t toy, pointer bool) signature.Algorithm {
	switch i {
	case 0:
		if pointer {
			return &t0{t}
		}
		return t0{t}
	case 1:
		if pointer {
			return &t1{t}
		}
		return t1{t}
	case 2:
		if pointer {
			return &t2{t}
		}
		return t2{t}
	case 3:
		if pointer {
			return &t3{t}
		}
		return t3{t}
	case 4:
		if pointer {
			return &t4{t}
		}
		return t4{t}
	case 5:
		if pointer {
			return &t5{t}
		}
		return t5{t}
	case 6:
		if pointer {
			return &t6{t}
		}
		return t6{t}
	case 7:
		if pointer {
			return &t7{t}
		}
		return t7{t}
	case 8:
		if pointer {
			return &t8{t}
		}
		return t8{t}
	case 9:
		if pointer {
			return &t9{t}
		}
		return t9{t}
	case 10:
		if pointer {
			return &t10{t}
		}
		return t10{t}
	case 11:
		if pointer {
			return &t11{t}
		}
		return t11{t}
	case 12:
		if pointer {
			return &t12{t}
		}
		return t12{t}
	case 13:
		if pointer {
			return &t13{t}
		}
		return t13{t}
	case 14:
		if pointer {
			return &t14{t}
		}
		return t14{t}
	case 15:
		if pointer {
			return &t15{t}
		}
		return t15{t}
	case 16:
		if pointer {
			return &t16{t}
		}
		return t16{t}
	case 17:
		if pointer {
			return &t17{t}
		}
		return t17{t}
	case 18:
		if pointer {
			return &t18{t}
		}
		return t18{t}
	case 19:
		if pointer {
			return &t19{t}
		}
		return t19{t}
	case 20:
		if pointer {
			return &t20{t}
		}
		return t20{t}
	case 21:
		if pointer {
			return &t21{t}
		}
		return t21{t}
	case 22:
		if pointer {
			return &t22{t}
		}
		return t22{t}
	case 23:
		if pointer {
			return &t23{t}
		}
		return t23{t}
	case 24:
		if pointer {
			return &t24{t}
		}
		return t24{t}
	case 25:
		if pointer {
			return &t25{t}
		}
		return t25{t}
	case 26:
		if pointer {
			return &t26{t}
		}
		return t26{t}
	case 27:
		if pointer {
			return &t27{t}
		}
		return t27{t}
	case 28:
		if pointer {
			return &t28{t}
		}
		return t28{t}
	case 29:
		if pointer {
			return &t29{t}
		}
		return t29{t}
	case 30:
		if pointer {
			return &t30{t}
		}
		return t30{t}
	case 31:
		if pointer {
			return &t31{t}
		}
		return t31{t}
	case 32:
		if pointer {
			return &t32{t}
		}
		return t32{t}
	case 33:
		if pointer {
			return &t33{t}
		}
		return t33{t}
	case 34:
		if pointer {
			return &t34{t}
		}
		return t34{t}
	case 35:
		if pointer {
			return &t35{t}
		}
		return t35{t}
	case 36:
		if pointer {
			return &t36{t}
		}
		return t36{t}
	case 37:
		if pointer {
			return &t37{t}
		}
		return t37{t}
	case 38:
		if pointer {
			return &t38{t}
		}
		return t38{t}
	case 39:
		if pointer {
			return &t39{t}
		}
		return t39{t}
	case 40:
		if pointer {
			return &t40{t}
		}
		return t40{t}
	case 41:
		if pointer {
			return &t41{t}
		}
		return t41{t}
	case 42:
		if pointer {
			return &t42{t}
		}
		return t42{t}
	case 43:
		if pointer {
			return &t43{t}
		}
		return t43{t}
	case 44:
		if pointer {
			return &t44{t}
		}
		return t44{t}
	case 45:
		if pointer {
			return &t45{t}
		}
		return t45{t}
	case 46:
		if pointer {
			return &t46{t}
		}
		return t46{t}
	case 47:
		if pointer {
			return &t47{t}
		}
		return t47{t}
	case 48:
		if pointer {
			return &t48{t}
		}
		return t48{t}
	case 49:
		if pointer {
			return &t49{t}
		}
		return t49{t}
	case 50:
		if pointer {
			return &t50{t}
		}
		return t50{t}
	case 51:
		if pointer {
			return &t51{t}
		}
		return t51{t}
	case 52:
		if pointer {
			return &t52{t}
		}
		return t52{t}
	case 53:
		if pointer {
			return &t53{t}
		}
		return t53{t}
	case 54:
		if pointer {
			return &t54{t}
		}
		return t54{t}
	case 55:
		if pointer {
			return &t55{t}
		}
		return t55{t}
	case 56:
		if pointer {
			return &t56{t}
		}
		return t56{t}
	case 57:
		if pointer {
			return &t57{t}
		}
		return t57{t}
	case 58:
		if pointer {
			return &t58{t}
		}
		return t58{t}
	case 59:
		if pointer {
			return &t59{t}
		}
		return t59{t}
	case 60:
		if pointer {
			return &t60{t}
		}
		return t60{t}
	case 61:
		if pointer {
			return &t61{t}
		}
		return t61{t}
	case 62:
		if pointer {
			return &t62{t}
		}
		return t62{t}
	case 63:
		if pointer {
			return &t63{t}
		}
		return t63{t}
	case 64:
		if pointer {
			return &t64{t}
		}
		return t64{t}
	case 65:
		if pointer {
			return &t65{t}
		}
		return t65{t}
	case 66:
		if pointer {
			return &t66{t}
		}
		return t66{t}
	case 67:
		if pointer {
			return &t67{t}
		}
		return t67{t}
	case 68:
		if pointer {
			return &t68{t}
		}
		return t68{t}
	case 69:
		if pointer {
			return &t69{t}
		}
		return t69{t}
	case 70:
		if pointer {
			return &t70{t}
		}
		return t70{t}
	case 71:
		if pointer {
			return &t71{t}
		}
		return t71{t}
	case 72:
		if pointer {
			return &t72{t}
		}
		return t72{t}
	case 73:
		if pointer {
			return &t73{t}
		}
		return t73{t}
	case 74:
		if pointer {
			return &t74{t}
		}
		return t74{t}
	case 75:
		if pointer {
			return &t75{t}
		}
		return t75{t}
	case 76:
		if pointer {
			return &t76{t}
		}
		return t76{t}
	case 77:
		if pointer {
			return &t77{t}
		}
		return t77{t}
	case 78:
		if pointer {
			return &t78{t}
		}
		return t78{t}
	case 79:
		if pointer {
			return &t79{t}
		}
		return t79{t}
	case 80:
		if pointer {
			return &t80{t}
		}
		return t80{t}
	case 81:
		if pointer {
			return &t81{t}
		}
		return t81{t}
	case 82:
		if pointer {
			return &t82{t}
		}
		return t82{t}
	case 83:
		if pointer {
			return &t83{t}
		}
		return t83{t}
	case 84:
		if pointer {
			return &t84{t}
		}
		return t84{t}
	case 85:
		if pointer {
			return &t85{t}
		}
		return t85{t}
	case 86:
		if pointer {
			return &t86{t}
		}
		return t86{t}
	case 87:
		if pointer {
			return &t87{t}
		}
		return t87{t}
	case 88:
		if pointer {
			return &t88{t}
		}
		return t88{t}
	case 89:
		if pointer {
			return &t89{t}
		}
		return t89{t}
	case 90:
		if pointer {
			return &t90{t}
		}
		return t90{t}
	case 91:
		if pointer {
			return &t91{t}
		}
		return t91{t}
	case 92:
		if pointer {
			return &t92{t}
		}
		return t92{t}
	case 93:
		if pointer {
			return &t93{t}
		}
		return t93{t}
	case 94:
		if pointer {
			return &t94{t}
		}
		return t94{t}
	case 95:
		if pointer {
			return &t95{t}
		}
		return t95{t}
	case 96:
		if pointer {
			return &t96{t}
		}
		return t96{t}
	case 97:
		if pointer {
			return &t97{t}
		}
		return t97{t}
	case 98:
		if pointer {
			return &t98{t}
		}
		return t98{t}
	case 99:
		if pointer {
			return &t99{t}
		}
		return t99{t}
	case 100:
		if pointer {
			return &t100{t}
		}
		return t100{t}
	case 101:
		if pointer {
			return &t101{t}
		}
		return t101{t}
	case 102:
		if pointer {
			return &t102{t}
		}
		return t102{t}
	case 103:
		if pointer {
			return &t103{t}
		}
		return t103{t}
	case 104:
		if pointer {
			return &t104{t}
		}
		return t104{t}
	case 105:
		if pointer {
			return &t105{t}
		}
		return t105{t}
	case 106:
		if pointer {
			return &t106{t}
		}
		return t106{t}
	case 107:
		if pointer {
			return &t107{t}
		}
		return t107{t}
	case 108:
		if pointer {
			return &t108{t}
		}
		return t108{t}
	case 109:
		if pointer {
			return &t109{t}
		}
		return t109{t}
	case 110:
		if pointer {
			return &t110{t}
		}
		return t110{t}
	case 111:
		if pointer {
			return &t111{t}
		}
		return t111{t}
	case 112:
		if pointer {
			return &t112{t}
		}
		return t112{t}
	case 113:
		if pointer {
			return &t113{t}
		}
		return t113{t}
	case 114:
		if pointer {
			return &t114{t}
		}
		return t114{t}
	case 115:
		if pointer {
			return &t115{t}
		}
		return t115{t}
	case 116:
		if pointer {
			return &t116{t}
		}
		return t116{t}
	case 117:
		if pointer {
			return &t117{t}
		}
		return t117{t}
	case 118:
		if pointer {
			return &t118{t}
		}
		return t118{t}
	case 119:
		if pointer {
			return &t119{t}
		}
		return t119{t}
	case 120:
		if pointer {
			return &t120{t}
		}
		return t120{t}
	case 121:
		if pointer {
			return &t121{t}
		}
		return t121{t}
	case 122:
		if pointer {
			return &t122{t}
		}
		return t122{t}
	case 123:
		if pointer {
			return &t123{t}
		}
		return t123{t}
	case 124:
		if pointer {
			return &t124{t}
		}
		return t124{t}
	case 125:
		if pointer {
			return &t125{t}
		}
		return t125{t}
	case 126:
		if pointer {
			return &t126{t}
		}
		return t126{t}
	case 127:
		if pointer {
			return &t127{t}
		}
		return t127{t}
	case 128:
		if pointer {
			return &t128{t}
		}
		return t128{t}
	case 129:
		if pointer {
			return &t129{t}
		}
		return t129{t}
	case 130:
		if pointer {
			return &t130{t}
		}
		return t130{t}
	case 131:
		if pointer {
			return &t131{t}
		}
		return t131{t}
	case 132:
		if pointer {
			return &t132{t}
		}
		return t132{t}
	case 133:
		if pointer {
			return &t133{t}
		}
		return t133{t}
	case 134:
		if pointer {
			return &t134{t}
		}
		return t134{t}
	case 135:
		if pointer {
			return &t135{t}
		}
		return t135{t}
	case 136:
		if pointer {
			return &t136{t}
		}
		return t136{t}
	case 137:
		if pointer {
			return &t137{t}
		}
		return t137{t}
	case 138:
		if pointer {
			return &t138{t}
		}
		return t138{t}
	case 139:
		if pointer {
			return &t139{t}
		}
		return t139{t}
	case 140:
		if pointer {
			return &t140{t}
		}
		return t140{t}
	case 141:
		if pointer {
			return &t141{t}
		}
		return t141{t}
	case 142:
		if pointer {
			return &t142{t}
		}
		return t142{t}
	case 143:
		if pointer {
			return &t143{t}
		}
		return t143{t}
	case 144:
		if pointer {
			return &t144{t}
		}
		return t144{t}
	case 145:
		if pointer {
			return &t145{t}
		}
		return t145{t}
	case 146:
		if pointer {
			return &t146{t}
		}
		return t146{t}
	case 147:
		if pointer {
			return &t147{t}
		}
		return t147{t}
	case 148:
		if pointer {
			return &t148{t}
		}
		return t148{t}
	case 149:
		if pointer {
			return &t149{t}
		}
		return t149{t}
	}
	panic(i)
}
